package main

// The properties and the jobs that decide them.

type PropDef struct {
	ID      string
	Jobs    func(g *gen)
	Bounds  string
	Outside string
	Assume  []string
}

type gen struct {
	tier string
	seed int
	jobs []*Job
}

func (g *gen) thorough() bool { return g.tier == "thorough" }

type P = map[string]int

func (g *gen) add(pkg, h string, p P, stubs ...string) *Job {
	j := &Job{Pkg: pkg, Harness: h, P: p, Stubs: stubs}
	g.jobs = append(g.jobs, j)
	return j
}

func findProp(id string) *PropDef {
	for _, p := range propDefs {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// ISO/IEC 18004 table 9, transcribed independently of the repository (same data as
// harness/root/ref.go): parity codewords per block and number of blocks.
var isoEcc = [5][41]int{
	{},
	{0, 7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
	{0, 10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28},
	{0, 13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
	{0, 17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
}
var isoBlocks = [5][41]int{
	{},
	{0, 1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25},
	{0, 1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49},
	{0, 1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68},
	{0, 1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81},
}

func isoRaw(v int) int {
	r := (16*v+128)*v + 64
	if v >= 2 {
		n := v/7 + 2
		r -= (25*n-10)*n - 55
		if v >= 7 {
			r -= 36
		}
	}
	return r
}

func isoDataBits(v, lv int) int { return (isoRaw(v)/8 - isoEcc[lv][v]*isoBlocks[lv][v]) * 8 }

func isoCountBits(v, mode int) int {
	k := 0
	if v > 26 {
		k = 2
	} else if v > 9 {
		k = 1
	}
	switch mode {
	case 1:
		return []int{10, 12, 14}[k]
	case 2:
		return []int{9, 11, 13}[k]
	case 4:
		return []int{8, 16, 16}[k]
	}
	return []int{8, 10, 12}[k]
}

func isoSegBits(v, mode, n int) int {
	h := 4 + isoCountBits(v, mode)
	switch mode {
	case 1:
		return h + n/3*10 + []int{0, 4, 7}[n%3]
	case 2:
		return h + n/2*11 + n%2*6
	case 4:
		return h + 8*n
	}
	return h + 13*n
}

func isoCap(v, lv, mode int) int {
	n := 0
	for isoSegBits(v, mode, n+1) <= isoDataBits(v, lv) {
		n++
	}
	return n
}

var modes = []int{1, 2, 4, 8}

func roundJob(g *gen, ver, lv, mode, n, chk, rs int) *Job {
	st := []string{"score"}
	if rs == 0 {
		st = append(st, "rsuf")
	}
	j := g.add("root", "vxhRound", P{"ver": ver, "lv": lv, "mode": mode, "n": n, "chk": chk, "rs": rs}, st...)
	j.Cost = isoRaw(ver) * 4
	if mode == 8 {
		j.Cost *= 2
	}
	if ver > 4 && !g.thorough() {
		j.P["msk"] = 1 + (ver*5+lv*3+mode+n)%8
	}
	return j
}

// filler is a mode index that varies with its arguments.
func rot(xs ...int) int {
	h := 7
	for _, x := range xs {
		h = (h*31 + x*17) % 9973
	}
	return h
}

const (
	outRoot   = "texts longer than one segment's worth of characters at version 40; texts that mix modes in several segments (the library never makes any)"
	assScore  = "in these jobs the mask's penalty score is an unconstrained value, so every mask that the library can select is covered (or the one named by the parameter msk)"
	assScoreF = "where the stub scoref is used, the mask's penalty score is an arbitrary value that depends on nothing but the finished symbol"
	assRS     = "where rs=0, reedsolomon.Encode (a dependency, not part of the repository) is an uninterpreted function of the block's data codewords and of the number of parity codewords; rs=1 executes it"
)

var propDefs = []*PropDef{
	{
		ID:      "C01",
		Bounds:  "versions 1-40 x 4 levels, modes numeric, alphanumeric, byte, kanji; lengths: capacity and near it, every length at version 1 (thorough: versions 1-5); every character symbolic",
		Outside: "lengths between the ones listed at versions above 1 (quick) or 5 (thorough); automatic mode and version selection (C04, C05)",
		Assume:  []string{assScore, assRS},
		Jobs: func(g *gen) {
			for v := 1; v <= 40; v++ {
				for lv := 1; lv <= 4; lv++ {
					for mi, m := range modes {
						c := isoCap(v, lv, m)
						if v <= 6 || g.thorough() || (v+lv)%4 == mi || v == 9 || v == 10 || v == 26 || v == 27 {
							roundJob(g, v, lv, m, c, 1, 0)
						}
						if v <= 2 || g.thorough() && v <= 5 {
							for n := 0; n < c; n++ {
								if v == 1 || (v+lv+mi+n)%3 == 0 || g.thorough() {
									roundJob(g, v, lv, m, n, 1, 0)
								}
							}
						} else if g.thorough() || (v+lv+2)%4 == mi {
							for d := 1; d < 4; d++ {
								if v <= 8 || g.thorough() || d == 1+(v+lv)%3 {
									roundJob(g, v, lv, m, c-d, 1, 0)
								}
							}
						}
					}
				}
			}
		},
	},
	{
		ID:      "C02",
		Bounds:  "versions 1-40 x 4 levels, texts that fill the symbol and short texts, modes rotated; the Reed-Solomon code itself executed and compared with an independent GF(256) syndrome computation for versions 1-10 (thorough: all 160)",
		Outside: "in quick, the arithmetic of the Reed-Solomon dependency above version 10",
		Assume:  []string{assScore, assRS},
		Jobs: func(g *gen) {
			for v := 1; v <= 40; v++ {
				for lv := 1; lv <= 4; lv++ {
					m := modes[(v+lv)%4]
					m2 := modes[(v*3+lv+1)%4]
					roundJob(g, v, lv, m, isoCap(v, lv, m), 2, 0)
					n := 5
					if c := isoCap(v, lv, m2); c < n {
						n = c
					}
					roundJob(g, v, lv, m2, n, 2, 0)
					if v <= 10 {
						roundJob(g, v, lv, 4, isoCap(v, lv, 4), 2, 1)
					} else if g.thorough() {
						j := roundJob(g, v, lv, 4, isoCap(v, lv, 4), 2, 1)
						j.P["msk"] = 1 + (v+lv)%8
						j.Cost *= 20
						if v > 30 {
							j.Weight = 2
						}
					}
				}
			}
		},
	},
	{
		ID:      "C03",
		Bounds:  "all 160 version and level combinations x all 8 masks; text of up to 6 symbolic characters, modes rotated",
		Outside: "longer texts (the function patterns are also read in the jobs of C01)",
		Assume:  []string{assScore, assRS},
		Jobs: func(g *gen) {
			for v := 1; v <= 40; v++ {
				for lv := 1; lv <= 4; lv++ {
					m := modes[(v+lv)%4]
					j := roundJob(g, v, lv, m, 1+rot(v, lv)%3, 4, 0)
					delete(j.P, "msk")
					if g.thorough() {
						for _, m := range modes {
							c := isoCap(v, lv, m)
							if c > 6 {
								c = 6
							}
							j := roundJob(g, v, lv, m, c, 4, 0)
							delete(j.P, "msk")
						}
					}
				}
			}
		},
	},
	{
		ID:      "C04",
		Bounds:  "automatic version: for every version, level and mode the lengths capacity-1, capacity, capacity+1 through the version analysis and (modes rotated) through the whole pipeline; requested version: at capacity, above it, and with room to spare; minimum version: 1-40",
		Outside: "lengths far from every capacity (thorough: every length at the version analysis up to 7092)",
		Assume:  []string{assScore, assRS},
		Jobs: func(g *gen) {
			for lv := 1; lv <= 4; lv++ {
				for _, m := range modes {
					g.add("root", "vxhVersionAll", P{"lv": lv, "mode": m}).Cost = 3000
					if g.thorough() {
						top := isoCap(40, lv, m) + 3
						step := 600
						for lo := 0; lo <= top; lo += step {
							hi := lo + step - 1
							if hi > top {
								hi = top
							}
							g.add("root", "vxhVersionAll", P{"lv": lv, "mode": m, "all": 1, "lo": lo, "hi": hi}).Cost = 9000
						}
					}
				}
			}
			ver := func(lv, m, n, expl, min, auto, cost int) {
				j := g.add("root", "vxhVersion", P{"lv": lv, "mode": m, "n": n, "expl": expl, "min": min, "auto": auto, "msk": 1 + rot(n, lv)%8}, "score", "rsuf")
				j.Cost = cost
			}
			for v := 1; v <= 40; v++ {
				for lv := 1; lv <= 4; lv++ {
					for mi, m := range modes {
						if !g.thorough() && (v*3+lv+mi)%4 != 0 && v > 2 {
							continue
						}
						c := isoCap(v, lv, m)
						cost := isoRaw(v)
						ver(lv, m, c, 0, 0, rot(v, lv, m)%2, cost)
						ver(lv, m, c+1, 0, 0, rot(v, m)%2, cost)
						if (v+lv+mi)%2 != 0 && v > 10 && !g.thorough() {
							ver(lv, m, 1+rot(v, lv)%4, v, 0, 0, cost)
							continue
						}
						ver(lv, m, c, v, 0, 0, cost)
						ver(lv, m, c+1, v, 0, 0, cost)
						ver(lv, m, 1+rot(v, lv)%4, v, 0, rot(lv, m)%2, cost)
						ver(lv, m, 1+rot(v, m)%4, 0, v, rot(v, lv, m)%2, cost)
						ver(lv, m, c, 0, 1+rot(v, lv, m)%40, rot(v, lv)%2, cost*2)
						// an explicit version wins over a minimum
						ver(lv, m, 1+rot(v, m)%4, v, 1+rot(v, lv, m)%40, 0, cost)
					}
				}
			}
			// beyond version 40
			for lv := 1; lv <= 4; lv++ {
				for _, m := range modes {
					ver(lv, m, isoCap(40, lv, m)+1+lv*3, 0, 0, 1, 100)
					ver(lv, m, isoCap(40, lv, m)+100, 0, 12, 0, 100)
				}
			}
		},
	},
	{
		ID:      "C05",
		Bounds:  "texts of up to 4 (thorough: 6) characters, each any digit, any alphanumeric, any ASCII byte, any kanji page character or any byte, in all orders; automatic and each requested mode; texts given as string and as bytes",
		Outside: "longer texts with symbolic classes at every position; three or more unrelated arbitrary bytes in a row (lead bytes E8 and F0 are used instead)",
		Assume:  []string{assScore, assRS},
		Jobs:    jobsC05,
	},
	{
		ID:      "C06",
		Bounds:  "every character of the pages U+3400-U+4DFF, U+4E00-U+9FFF, U+F900-U+FAFF and of a sample of other pages of the BMP (thorough: every page), alone and before another kanji, automatic and Kanji mode",
		Outside: "characters beyond the BMP; in quick, the other pages of the BMP",
		Assume:  []string{assScore, assRS},
		Jobs: func(g *gen) {
			page := func(p, mode, two int) {
				j := g.add("root", "vxhKanjiPage", P{"page": p, "lv": 1 + p%4, "mode": mode, "two": two, "msk": 1 + p%8}, "score", "rsuf")
				j.Cost = 2000
			}
			for p := 0x08; p <= 0xff; p++ {
				kan := p >= 0x4e && p <= 0x9f
				near := p >= 0x2f && p < 0x4e && p%3 == 0 || p == 0x30 || p == 0xa0 || p >= 0xf9 && p <= 0xfa || p == 0xff || p == 0x20 || p == 0x34 || p == 0x4d || p == 0x10
				if kan {
					page(p, 0, p&1)
					page(p, 8, 1-p&1)
				}
				if kan && g.thorough() {
					page(p, 0, 1-p&1)
					page(p, 8, p&1)
				}
				if !kan && (near || g.thorough()) {
					page(p, 0, p&1)
					page(p, 8, p&1)
				}
			}
		},
	},
	{
		ID:      "C07",
		Bounds:  "versions 1-7, 10 and 20 (thorough: also 14, 27, 32, 40), all levels; texts with 7-8 symbolic bits (one byte, one alphanumeric or two digits) in varied fixed surroundings; the real penalty code and all eight masks executed",
		Outside: "texts with more symbolic characters at once; the other versions",
		Assume:  []string{"the penalty of ISO/IEC 18004 7.8.3 with the finder-like pattern looked for inside the symbol only and counted once per side"},
		Jobs:    jobsC07,
	},
	{
		ID:      "C08",
		Bounds:  "two builds of one text; every order in which the results of the eight mask evaluations arrive, with the penalties arbitrary values in 0..1 (thorough: 0..3) that depend on the symbol only, under first-started-first, last-started-first and rotated goroutine schedules and both map iteration orders; histories of four other builds with the same and with other option values; two texts of 9-150 (thorough: 3-480) characters of every pair of modes, with as many characters or bytes, built in turn",
		Outside: "preemption of a goroutine in the middle of its work (C09 shows there is no data race that could make it matter); longer histories",
		Assume:  []string{assScoreF, assRS},
		Jobs:    jobsC08,
	},
	{
		ID:      "C09",
		Bounds:  "two goroutines building and saving at once with the same option values, and their 16 mask goroutines; happens-before race detection over every access to memory on every path, under several schedules; versions 1-7, 10, 20",
		Outside: "three or more concurrent builds; races that need different control flow from a different schedule",
		Assume:  []string{assScoreF, assRS},
		Jobs:    jobsC09,
	},
	{
		ID:      "C10",
		Bounds:  "every version and minimum version -3..44 (and symbolically far out of range), level -2..7, mode 0..70, option lists with repeated options; text given as string, bytes, named string, named bytes; texts of one or two symbolic characters",
		Outside: "combinations of three unusual options at once; options built by third parties",
		Assume:  []string{assScore, assRS},
		Jobs:    jobsC10,
	},
	{
		ID:      "C11",
		Bounds:  "all 40 versions, levels rotated (thorough: all 160), every mask, two symbolic bytes",
		Outside: "longer texts; the type of a module of both a timing and an alignment pattern (either is accepted)",
		Assume:  []string{assScore, assRS},
		Jobs: func(g *gen) {
			for v := 1; v <= 40; v++ {
				for lv := 1; lv <= 4; lv++ {
					if lv == 1+rot(v)%4 || g.thorough() {
						j := g.add("root", "vxhTypes", P{"ver": v, "lv": lv, "mode": 32}, "rsuf", "score")
						j.S = map[string]string{"pat": "BB"}
						j.Cost = isoRaw(v)
					}
				}
			}
		},
	},
	{
		ID:      "C12",
		Bounds:  "square matrices of side 1-8 and 21 (thorough: also 25, 33, 45) with every module symbolic",
		Outside: "matrices that are not square (the library makes none)",
		Jobs: func(g *gen) {
			ns := []int{1, 2, 3, 4, 5, 6, 7, 8, 13, 21}
			if g.thorough() {
				ns = append(ns, 25, 33, 45)
			}
			for _, n := range ns {
				g.add("root", "vxhMatrix", P{"n": n}).Cost = n * n * 4
			}
		},
	},
	{
		ID:      "C13",
		Bounds:  "three saves of one symbol to writers whose Write and Close each fail, succeed or panic, in every combination; versions 1, 2, 7; one or two symbolic characters",
		Outside: "more than three saves",
		Assume:  []string{assScore, assRS},
		Jobs: func(g *gen) {
			for i, v := range []int{1, 2, 7} {
				j := g.add("root", "vxhSave", P{"ver": v, "lv": 1 + i, "mode": 0, "msk": 1 + i}, "rsuf", "score")
				j.S = map[string]string{"pat": []string{"B", "a", "d"}[i]}
			}
			if g.thorough() {
				for v := 1; v <= 40; v++ {
					j := g.add("root", "vxhSave", P{"ver": v, "lv": 1 + v%4, "mode": 0, "msk": 1 + v%8}, "rsuf", "score")
					j.S = map[string]string{"pat": []string{"B", "a", "d"}[v%3]}
				}
			}
		},
	},
}

func jobsC07(g *gen) {
	add := func(ver, lv, mode int, pat string, cost int) {
		j := g.add("root", "vxhMask", P{"ver": ver, "lv": lv, "mode": mode})
		j.S = map[string]string{"pat": pat}
		j.Cost = cost
	}
	alpha := "GHIJLMNOPQRSTUVWZ0123456789"
	lit := func(h, n int) string {
		b := make([]byte, n)
		for i := range b {
			h = (h*1103515245 + 12345) & 0x7fffffff
			b[i] = alpha[(h>>10)%len(alpha)]
		}
		return string(b)
	}
	k := 0
	one := func(v, lv, n int) {
		k++
		letters := []string{"a", "l", "B", "d", "a", "l"}
		c := letters[rot(v, lv, n, k)%len(letters)]
		mode := 4
		if c == "a" || c == "d" {
			mode = 0
		}
		if c == "d" && n%3 == 0 {
			// numeric throughout
			s := ""
			for i := 0; i < n; i++ {
				s += string(rune('0' + rot(i, v, lv)%10))
			}
			add(v, lv, 0, s+"d", isoRaw(v))
			return
		}
		h := rot(v, lv, n, k)
		add(v, lv, mode, lit(h, n)+c, isoRaw(v)*4)
	}
	reps := []int{0, 6, 5, 3, 2, 2, 2, 1}
	for v := 1; v <= 7; v++ {
		r := reps[v]
		if g.thorough() {
			r *= 6
		}
		for lv := 1; lv <= 4; lv++ {
			for i := 0; i < r; i++ {
				c := isoCap(v, lv, 4) - 1
				n := c
				if i > 0 {
					n = rot(i, v, lv) % (c + 1)
				}
				if i == 1 {
					n = 0
				}
				one(v, lv, n)
			}
		}
	}
	for i, v := range []int{10, 20} {
		one(v, 1+i, isoCap(v, 1+i, 4)/2)
		one(v, 3+i, 3)
	}
	if g.thorough() {
		for i, v := range []int{8, 9, 11, 12, 14, 17, 23, 27, 32, 40} {
			one(v, 1+i%4, isoCap(v, 1+i%4, 4)-1)
		}
	}
}

func jobsC08(g *gen) {
	det := func(ver, lv, mode, pol int, pat string, real bool, smax int) {
		st := []string{"rsuf", "scoref"}
		if real {
			st = nil
		}
		j := g.add("root", "vxhDeterm", P{"ver": ver, "lv": lv, "mode": mode, "pol": pol, "smax": smax}, st...)
		j.S = map[string]string{"pat": pat}
		j.Order = true
		j.Cost = isoRaw(ver) * 3
		if real {
			j.Cost *= 8
		}
	}
	pats := []string{"llllll", "aaaaa", "dddddddd", "lzzlBB"}
	mds := []int{4, 2, 1, 4}
	for v := 1; v <= 40; v++ {
		if v > 10 && v%5 != 0 && !g.thorough() {
			continue
		}
		for lv := 1; lv <= 4; lv++ {
			if lv != 1+rot(v)%4 && lv != 1+(rot(v)+1)%4 && !g.thorough() {
				continue
			}
			i := rot(v, lv) % 4
			det(v, lv, mds[i], 1+rot(v, lv)%7, pats[i], false, 1)
		}
	}
	for pol := 1; pol <= 7; pol++ {
		det(1, 1+pol%4, 0, pol, "llllll", false, 1)
		det(2, 1+pol%4, 0, pol, "aaaa", false, 3)
		det(3, 1+pol%4, 1, pol, "dddd", false, 1)
	}
	det(1, 1, 4, 1, "zzd", true, 0)
	det(1, 2, 0, 6, "TEd", true, 0)
	det(2, 3, 0, 3, "12345d", true, 0)
	hist := func(ver, lv, mode, hv, msk int, pat string) {
		var j *Job
		if msk != 0 {
			j = g.add("root", "vxhHist", P{"ver": ver, "lv": lv, "mode": mode, "hv": hv, "msk": msk}, "rsuf", "score")
			j.Cost = isoRaw(ver) + isoRaw(hv)
		} else {
			j = g.add("root", "vxhHist", P{"ver": ver, "lv": lv, "mode": mode, "hv": hv})
			j.Cost = 8 * (isoRaw(ver) + isoRaw(hv))
		}
		j.S = map[string]string{"pat": pat}
	}
	hist(1, 2, 4, 1, 0, "HI, OULl")
	hist(1, 1, 0, 2, 0, "HIa")
	hist(2, 3, 0, 2, 0, "02984d")
	hist(0, 3, 0, 2, 0, "http://gl")
	hist(7, 4, 4, 7, 0, "VERSION 7l")
	for v := 1; v <= 40; v++ {
		if v > 10 && v%5 != 0 && !g.thorough() {
			continue
		}
		lv := 1 + rot(v, 3)%4
		i := rot(v, lv, 5) % 4
		hist(v, lv, mds[i], v, 1+v%8, pats[i])
		hist(v, 1+lv%4, mds[(i+1)%4], 1+rot(v)%15, 1+(v+3)%8, pats[(i+1)%4])
	}
	hist(0, 1, 0, 1, 3, "aaaaaaaaaaaaaaaaaaaaaaaaaa")
	hist(0, 3, 0, 4, 7, "BlBlBlBlBlBlBlBlBl")
	hist(0, 2, 8, 4, 7, "KK")
	g.jobs[len(g.jobs)-1].P["page"] = 0x5b
	ls := []int{9, 33, 78, 105, 150}
	if g.thorough() {
		ls = append(ls, 3, 60, 210, 300, 480)
	}
	for _, n := range ls {
		for _, a := range []int{1, 2, 4, 8} {
			for _, b := range []int{1, 2, 4, 8} {
				for k := 0; k < 2; k++ {
					lv := 1 + rot(n, a, b, k)%4
					lb := lv
					if k == 1 && rot(a, b, n)%2 == 0 || a == b {
						lb = 1 + lv%4
					}
					nb := n
					if k == 1 && (a == 8) != (b == 8) { // as many bytes
						if nb = n * 3; b == 8 {
							nb = n / 3
						}
					}
					j := g.add("root", "vxhPairs", P{"lv": lv, "lvb": lb, "mode": a, "modeb": b, "n": n, "nb": nb,
						"req": k, "fix": rot(n, b, k, a) % 2, "msk": 1 + (n+a+b+k)%8}, "rsuf", "score")
					j.Cost = n * 10
				}
			}
		}
	}
}

func jobsC09(g *gen) {
	race := func(ver, vb, lv, mode int, pat string, real bool, msk int) {
		st := []string{"rsuf", "scoref"}
		if real {
			st = nil
		} else if msk != 0 {
			st[1] = "score"
		}
		j := g.add("root", "vxhRace", P{"ver": ver, "vb": vb, "lv": lv, "mode": mode, "msk": msk}, st...)
		j.S = map[string]string{"pat": pat}
		j.Race = true
		j.Cost = (isoRaw(ver) + isoRaw(vb)) * 10
	}
	race(2, 0, 1, 0, "dA", true, 0)
	race(1, 3, 2, 0, "HIa", true, 0)
	race(1, 1, 3, 4, "zd", true, 0)
	race(0, 0, 3, 0, "a", true, 0)
	race(7, 9, 4, 0, "22d", true, 0)
	two := func(pkg string, p P) {
		g.add(pkg, "vxhTwo", p, "fs", "codec").Race = true
	}
	for k := 0; k < 6; k++ {
		two("standard", P{"n": 3 + k%2, "d": k % 2, "bw": 2 + k/5, "what": k, "file": k / 2 % 2, "jpg": k / 3 % 2})
	}
	two("compressed", P{"n": 2, "d": 0, "bs": 2, "pad": 1})
	two("compressed", P{"n": 3, "d": 1, "bs": 1, "pad": 0, "file": 1})
	two("file", P{"n": 3, "d": 0})
	two("file", P{"n": 4, "d": 1})
	if g.thorough() {
		for k := 0; k < 12; k++ {
			two("standard", P{"n": 5 + k%3, "d": k / 6, "bw": 3, "what": k % 6, "file": k / 3 % 2, "jpg": k % 2})
			two("compressed", P{"n": 4 + k%3, "d": k % 2, "bs": 1 + k/4, "pad": k % 3, "file": k / 2 % 2})
		}
		race(7, 9, 1, 0, "aaa", false, 0)
		race(10, 27, 4, 4, "ll", true, 0)
		race(14, 1, 4, 4, "Hl", true, 0)
		race(20, 3, 2, 4, "Il", true, 0)
		race(0, 0, 2, 0, "K", true, 0)
	}
}

func jobsC10(g *gen) {
	opt := func(which, typ int, pat string, lo, hi, lo2, hi2, wide int) *Job {
		j := g.add("root", "vxhOptions", P{"which": which, "type": typ, "lo": lo, "hi": hi, "lo2": lo2, "hi2": hi2, "wide": wide, "msk": 1 + rot(which, typ, lo)%8}, "rsuf", "score")
		j.S = map[string]string{"pat": pat}
		j.Cost = 2000
		if hi > 10 && wide == 0 {
			j.Cost = hi * hi * 20
		}
		return j
	}
	slices := [][2]int{{-3, 8}, {9, 17}, {18, 24}, {25, 30}, {31, 35}, {36, 39}, {40, 44}}
	pats := []string{"B", "d", "a", "k", "l"}
	for i, s := range slices {
		opt(1, i%4, pats[i%5], s[0], s[1], 0, 0, 0)
		opt(2, (i+1)%4, pats[(i+2)%5], s[0], s[1], 0, 0, 0)
	}
	far := [][2]int{{41, 1 << 62}, {-1 << 62, 0}, {256, 300}, {1 << 32, 1<<32 + 50}}
	for i, s := range far {
		opt(1, i%4, pats[i%5], s[0], s[1], 0, 0, 1)
		opt(2, (i+1)%4, pats[(i+1)%5], s[0], s[1], 0, 0, 1)
	}
	for i, p := range []string{"B", "d", "a", "k", "l"} {
		opt(4, i%4, p, 0, 0, 0, 0, 0)
		opt(8, (i+1)%4, p, 0, 0, 0, 0, 0)
		opt(4+32, (i+2)%4, p, 0, 0, 0, 0, 0)
		if p != "B" && p != "l" || g.thorough() {
			opt(12, (i+3)%4, p, 0, 0, 0, 0, 0)
		}
		for t := 0; t < 6; t++ {
			opt(0, t, p, 0, 0, 0, 0, 0)
		}
	}
	for t := 0; t < 6; t++ {
		opt(0, t, "", 0, 0, 0, 0, 0)
		opt(8, t%4, []string{"aB", "dk", "kd", "kk", "da", "BB"}[t], 0, 0, 0, 0, 0)
	}
	opt(17, 0, "a", -1, 4, -1, 4, 0)
	opt(66, 1, "d", -1, 4, -1, 4, 0)
	opt(3, 2, "B", -1, 4, 0, 0, 0)
	opt(3, 2, "d", 38, 42, 0, 0, 0)
	opt(1+8, 3, "a", -1, 2, 0, 0, 0)
	opt(2+8, 0, "k", -1, 2, 0, 0, 0)
	opt(1+4, 1, "l", -1, 2, 0, 0, 0)
	opt(2+4, 1, "dd", -1, 2, 0, 0, 0)
	if g.thorough() {
		for i, s := range slices {
			for t := 0; t < 4; t++ {
				opt(1, t, pats[(i+t+1)%5], s[0], s[1], 0, 0, 0)
				opt(2, t, pats[(i+t+3)%5], s[0], s[1], 0, 0, 0)
			}
		}
		opt(17, 1, "B", -1, 8, -1, 8, 0)
		opt(66, 2, "k", -1, 8, -1, 8, 0)
		opt(51, 3, "d", -1, 2, -1, 2, 0)
	}
}

func jobsC05(g *gen) {
	add := func(pat string, mode, bytes int) {
		h := 0
		for _, c := range pat {
			h = h*7 + int(c)
		}
		j := g.add("root", "vxhAuto", P{"lv": 1 + (h+mode)%4, "mode": mode, "page": 0x4e + h%40, "bytes": bytes, "msk": 1 + h%8}, "score", "rsuf")
		j.S = map[string]string{"pat": pat}
		j.Cost = 1000 * len(pat)
	}
	letters := "dalkB"
	var all func(p string, n int)
	var pats []string
	all = func(p string, n int) {
		pats = append(pats, p)
		if n == 0 {
			return
		}
		for _, c := range letters {
			if c == 'B' && len(p) > 0 && p[len(p)-1] == 'B' && len(p) > 1 {
				continue
			}
			all(p+string(c), n-1)
		}
	}
	all("", 2)
	if g.thorough() {
		pats = nil
		letters = "dalkB"
		all("", 3)
	}
	three := []string{"dad", "daK", "dKd", "KaK", "Kda", "KKK", "kkk", "KlK", "lKa", "ldK", "dal", "ddl", "ddd", "aaa", "lll", "dKK", "aKK", "KKd", "KKa", "KKl", "EBX", "EXB", "FBXX", "EXXB", "dEXX", "EXXd", "dFXXX", "BEXX", "EXXBd",
		"1K", "AK", "K1", "1aK", "dddK", "aaaK", "KKKd", "dddddd", "aaaaaa", "KKKK", "dddda", "ddddl", "aaaal", "aB", "Bd"}
	pats = append(pats, three...)
	seen := map[string]bool{}
	for i, p := range pats {
		if seen[p] {
			continue
		}
		seen[p] = true
		add(p, 0, i&1)
		for mi, m := range modes {
			if g.thorough() || len(p) < 2 || (i+mi)%2 == 0 {
				add(p, m, (i+mi)>>1&1)
			}
		}
	}
}
