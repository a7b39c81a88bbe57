package main

import (
	"fmt"
	"math/rand"
	"testing"
)

// Differential test of the term simplifier: build random expressions through the simplifying
// constructors and compare the evaluation of the simplified term with direct evaluation.
func TestTermsDifferential(t *testing.T) {
	for seed := int64(0); seed < 4000; seed++ {
		rng := rand.New(rand.NewSource(seed))
		c := NewTermCtx()
		type pair struct {
			t *Term
			v []uint64
		}
		const N = 8
		var models [N]Model
		for i := range models {
			models[i] = Model{}
		}
		var pool64, pool8 []pair
		var bools []pair
		for i := 0; i < 3; i++ {
			w := []uint8{8, 12, 20}[i]
			nm := fmt.Sprintf("v%d", i)
			v := c.Var(nm, w)
			z := c.Zext(v, 64)
			p := pair{t: z}
			for j := range models {
				x := rng.Uint64() & wmask(w)
				if rng.Intn(3) == 0 {
					x = uint64(rng.Intn(3))
				}
				models[j][nm] = x
				p.v = append(p.v, x)
			}
			pool64 = append(pool64, p)
			if w == 8 {
				pool8 = append(pool8, pair{v, p.v})
			}
		}
		if seed%3 == 0 {
			v := c.Var("f", 64)
			p := pair{t: v}
			for j := range models {
				x := rng.Uint64()
				models[j]["f"] = x
				p.v = append(p.v, x)
			}
			pool64 = append(pool64, p)
		}
		check := func(p pair, what string) {
			for j := range models {
				e := NewEval(models[j])
				got := e.Eval(p.t)
				if got != p.v[j] {
					t.Fatalf("seed %d: %s: term %v got %d want %d model %v", seed, what, p.t, got, p.v[j], models[j])
				}
				if p.t.w > 0 {
					x := int64(p.v[j])
					if x < p.t.lo || x > p.t.hi {
						t.Fatalf("seed %d: %s: range [%d,%d] misses %d: %v", seed, what, p.t.lo, p.t.hi, x, p.t)
					}
				}
			}
		}
		consts := []uint64{0, 1, 2, 3, 7, 8, 20, 511, 512, 1024, ^uint64(0), ^uint64(511), 1 << 40}
		for step := 0; step < 25; step++ {
			pick := func(pool []pair, w uint8) pair {
				if rng.Intn(3) == 0 {
					k := consts[rng.Intn(len(consts))] & wmask(w)
					p := pair{t: c.Const(k, w)}
					for range models {
						p.v = append(p.v, k)
					}
					return p
				}
				return pool[rng.Intn(len(pool))]
			}
			w := uint8(64)
			pool := &pool64
			if rng.Intn(4) == 0 {
				w = 8
				pool = &pool8
			}
			a, b := pick(*pool, w), pick(*pool, w)
			m := wmask(w)
			op := rng.Intn(18)
			var r pair
			bin := func(f func(x, y uint64) uint64) {
				for j := range models {
					r.v = append(r.v, f(a.v[j], b.v[j])&m)
				}
			}
			sh := uint64(rng.Intn(12))
			nm := fmt.Sprint("op", op, " ", a.t, " ", b.t)
			switch op {
			case 0, 1:
				r.t = c.Add(a.t, b.t)
				bin(func(x, y uint64) uint64 { return x + y })
			case 2, 3:
				r.t = c.Sub(a.t, b.t)
				bin(func(x, y uint64) uint64 { return x - y })
			case 4:
				r.t = c.Mul(a.t, b.t)
				bin(func(x, y uint64) uint64 { return x * y })
			case 5, 6:
				zero := false
				for _, v := range b.v {
					if v == 0 {
						zero = true
					}
				}
				if zero {
					continue
				}
				if op == 5 {
					r.t = c.Sdiv(a.t, b.t)
					bin(func(x, y uint64) uint64 {
						if sext(y, w) == -1 {
							return -x
						}
						return uint64(sext(x, w) / sext(y, w))
					})
				} else {
					if rng.Intn(2) == 0 {
						r.t = c.Srem(a.t, b.t)
						bin(func(x, y uint64) uint64 {
							if sext(y, w) == -1 {
								return 0
							}
							return uint64(sext(x, w) % sext(y, w))
						})
					} else {
						if rng.Intn(2) == 0 {
							r.t = c.Udiv(a.t, b.t)
							bin(func(x, y uint64) uint64 { return x / y })
						} else {
							r.t = c.Urem(a.t, b.t)
							bin(func(x, y uint64) uint64 { return x % y })
						}
					}
				}
			case 7:
				r.t = c.And(a.t, b.t)
				bin(func(x, y uint64) uint64 { return x & y })
			case 8:
				r.t = c.Or(a.t, b.t)
				bin(func(x, y uint64) uint64 { return x | y })
			case 9:
				r.t = c.Xor(a.t, b.t)
				bin(func(x, y uint64) uint64 { return x ^ y })
			case 10:
				r.t = c.Lshr(a.t, sh)
				bin(func(x, y uint64) uint64 { return x >> sh })
			case 11:
				r.t = c.Ashr(a.t, sh)
				bin(func(x, y uint64) uint64 {
					s := sh
					return uint64(sext(x, w) >> s)
				})
			case 12:
				r.t = c.Shl(a.t, sh)
				bin(func(x, y uint64) uint64 { return x << sh })
			case 13:
				// width change
				if w == 64 {
					r.t = c.Extract(a.t, 8)
					m = 255
					bin(func(x, y uint64) uint64 { return x })
					check(r, nm)
					pool8 = append(pool8, r)
				} else {
					m = ^uint64(0)
					if rng.Intn(2) == 0 {
						r.t = c.Zext(a.t, 64)
						bin(func(x, y uint64) uint64 { return x })
					} else {
						r.t = c.Sext(a.t, 64)
						bin(func(x, y uint64) uint64 { return uint64(sext(x, 8)) })
					}
					check(r, nm)
					pool64 = append(pool64, r)
				}
				continue
			case 14, 15:
				k := rng.Intn(5)
				f := []func(x, y *Term) *Term{c.Eq, c.Ult, c.Ule, c.Slt, c.Sle}[k]
				r.t = f(a.t, b.t)
				m = 1
				bin(func(x, y uint64) uint64 {
					switch k {
					case 0:
						return b2u(x == y)
					case 1:
						return b2u(x < y)
					case 2:
						return b2u(x <= y)
					case 3:
						return b2u(sext(x, w) < sext(y, w))
					}
					return b2u(sext(x, w) <= sext(y, w))
				})
				check(r, nm)
				bools = append(bools, r)
				n := pair{t: c.Not(r.t)}
				for _, v := range r.v {
					n.v = append(n.v, 1-v)
				}
				check(n, "not "+nm)
				bools = append(bools, n)
				continue
			case 16:
				if len(bools) == 0 {
					continue
				}
				q := bools[rng.Intn(len(bools))]
				r.t = c.Ite(q.t, a.t, b.t)
				for j := range models {
					if q.v[j] != 0 {
						r.v = append(r.v, a.v[j])
					} else {
						r.v = append(r.v, b.v[j])
					}
				}
			case 17:
				if len(bools) < 2 {
					continue
				}
				x, y := bools[rng.Intn(len(bools))], bools[rng.Intn(len(bools))]
				r.t = c.BAnd(x.t, y.t)
				o := pair{t: c.BOr(x.t, y.t)}
				for j := range models {
					r.v = append(r.v, x.v[j]&y.v[j])
					o.v = append(o.v, x.v[j]|y.v[j])
				}
				check(r, "and")
				check(o, "or")
				bools = append(bools, r, o)
				continue
			}
			check(r, nm)
			*pool = append(*pool, r)
		}
	}
}

// Solver agreement: for random terms, the solver's value under a fixed model equals Eval.
func TestSolverAgrees(t *testing.T) {
	s, err := NewSolver("z3", 5000)
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	for seed := int64(0); seed < 300; seed++ {
		rng := rand.New(rand.NewSource(seed))
		c := NewTermCtx()
		s.BeginPath()
		m := Model{}
		var pool []*Term
		for i := 0; i < 3; i++ {
			w := []uint8{8, 12, 20}[i]
			nm := fmt.Sprintf("v%d", i)
			v := c.Var(nm, w)
			m[nm] = rng.Uint64() & wmask(w)
			s.Assert(c.Eq(v, c.Const(m[nm], w)))
			pool = append(pool, c.Zext(v, 64))
		}
		for i := 0; i < 12; i++ {
			a, b := pool[rng.Intn(len(pool))], pool[rng.Intn(len(pool))]
			k := c.Const([]uint64{1, 3, 20, 512, 511}[rng.Intn(5)], 64)
			var r *Term
			switch rng.Intn(8) {
			case 0:
				r = c.Add(a, b)
			case 1:
				r = c.Sub(a, b)
			case 2:
				r = c.Mul(a, b)
			case 3:
				r = c.Sdiv(a, k)
			case 4:
				r = c.And(a, k)
			case 5:
				r = c.Ite(c.Slt(a, b), a, k)
			case 6:
				if a.lo >= 0 {
					r = c.Zext(c.Digit(a, 10, rng.Intn(3), 4), 64)
				} else {
					r = a
				}
			case 7:
				r = c.Srem(a, k)
			}
			pool = append(pool, r)
			e := NewEval(m)
			v := e.Eval(r)
			res, _ := s.Check(c.Not(c.Eq(r, c.Const(v, 64))))
			if res != Unsat {
				t.Fatalf("seed %d: solver disagrees on %v: want %d", seed, r, v)
			}
		}
	}
}
