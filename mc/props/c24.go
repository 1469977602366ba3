package props

import (
	"fmt"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// sizePatterns: the lengths of the old values of the updates of a log, in turn.
var sizePatterns = [][]int{{5}, {5, 60, 300}, {1400, 5}, {600, 600, 20}, {7900, 5, 5}}

// circularLog fills exactly total bytes with updates, the first filler bytes with another record.
func circularLog(t *Table, sizes []int, filler, total int) (*logb, []Upd, []int) {
	l := newLog()
	over := len(padRec(0))
	room := func() int { return total - len(l.b) }
	if filler > 0 && over+filler < total {
		l.add(padRec(filler))
	}
	var ws []Upd
	var ends []int // [start, end) of each update
	for k := 0; ; k++ {
		r := Row{int64(k), letters(sizes[k%len(sizes)]), int64(1000 + k)}
		rec := undoUpd(t, r, 1, 2).LogRec(uint64(t.Space), 300)
		if len(rec) > room() || room()-len(rec) != 0 && room()-len(rec) < over {
			break
		}
		ends = append(ends, len(l.b))
		l.add(rec)
		ends = append(ends, len(l.b))
		ws = append(ws, Upd{T: t, Changed: []int{1, 2}, Old: r})
	}
	if room() >= over {
		l.add(padRec(room() - over))
	}
	if room() != 0 {
		return nil, nil, nil
	}
	return l, ws, ends
}

// longCircles: the numbers of blocks of the logs of space long-circles.
func longCircles(th bool) []int {
	if th {
		return []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025, 2049, 20000, 70000, 100000}
	}
	return []int{16, 17, 32, 33, 65, 129, 257, 513, 20000}
}

func c24(th bool) []*eng.Space {
	t := tableOf("d", "t", 40, col("id", IntT(4, false)), ncol("v", VarcharUtf8(2700)), col("n", IntT(4, false)))
	dict := dictOf(t)
	perMax, ends := 4, []int{13, 300, 496}
	fillers := []int{250}
	if th {
		perMax, ends = 7, []int{13, 14, 100, 300, 495, 496}
		fillers = []int{0, 250, 444}
	}
	tornMax := 4
	lens := []int{0, 0, 5, 600, 65535, 13, 300, 500, 511} // of a lost block (first: all of it is zero)
	type lay struct {
		c       Circle
		nb      int
		end     int
		sz, fil int
	}
	title := func(x lay, what string) func() string {
		return func() string {
			return fmt.Sprintf("%d files of %d blocks, %d blocks written, the last one with %d bytes, first number %#x, %d empty blocks behind, values of %v bytes, filler %d, checksum of before 5.7.9: %v%s",
				x.c.Files, x.c.Per, x.nb, x.end, x.c.First, x.c.Pads, sizePatterns[x.sz], x.fil, x.c.OldSum, what)
		}
	}
	build := func(x lay) (slots [][]byte, at []int, ws []Upd, pos []int) {
		l, ws, pos := circularLog(t, sizePatterns[x.sz], x.fil, (x.nb-1)*496+x.end)
		if l == nil {
			return nil, nil, nil, nil
		}
		slots, at = LogCircle(l.b, l.starts, x.c)
		return slots, at, ws, pos
	}
	// kept: the updates all of whose blocks are there.
	kept := func(at []int, ws []Upd, pos []int) []Upd {
		var w []Upd
		for k := range ws {
			ok := true
			for b := pos[2*k] / 496; b <= (pos[2*k+1]-1)/496; b++ {
				ok = ok && at[b] >= 0
			}
			if ok {
				w = append(w, ws[k])
			}
		}
		return w
	}
	small := func(c *eng.Chooser) (lay, bool) {
		var x lay
		x.c.Files = 1 + c.Pick(3)
		x.c.Per = 1 + c.Pick(perMax)
		n := x.c.Files * x.c.Per
		x.sz = c.Pick(len(sizePatterns))
		x.fil = fillers[c.Pick(len(fillers))]
		x.nb = 1 + c.Pick(2*n+3)
		x.end = ends[c.Pick(len(ends))]
		x.c.Pads = c.Pick(3)
		x.c.First = 17
		if c.Bool() {
			x.c.First = 0x40000000 - uint32(n)
		}
		return x, x.c.Pads < n
	}
	return []*eng.Space{
		{
			Name: "circle",
			Rule: fmt.Sprintf("logs of 1..2N+3 blocks in N = 1..3 x 1..%d slots (unwritten, written once, overwritten up to two times and ending at every slot), the last block with %v bytes, 0..2 empty blocks behind it, 5 patterns of records of up to 16 blocks at %d offsets, block numbers from 17 or around 2^30, both kinds of checksums: the updates that are there in full are printed, oldest first, and nothing else", perMax, ends, len(fillers)),
			Body: func(c *eng.Chooser) *eng.Case {
				x, ok := small(c)
				if !ok {
					return nil
				}
				x.c.OldSum = c.Bool()
				return &eng.Case{Title: title(x, ""), Run: func(e *eng.Env) *eng.Fail {
					slots, at, ws, pos := build(x)
					if slots == nil {
						return nil
					}
					o := redoLogs(e, dict, CircleFiles(slots, x.c.Per), "", "")
					e.Outcome(o.Text)
					return checkUpds(kept(at, ws, pos), o)
				}}
			},
		},
		{
			Name: "first-offset",
			Rule: "logs of 5..8 blocks in 1 x 4, 2 x 2 and 4 x 1 slots, the records shifted by 0..495 bytes, so that the first record of the oldest block starts at every offset up to the last byte of it (or there is none): the updates that are there in full are printed, oldest first, and nothing else",
			Body: func(c *eng.Chooser) *eng.Case {
				var x lay
				x.c.Files = []int{1, 2, 4}[c.Pick(3)]
				x.c.Per = 4 / x.c.Files
				x.sz = c.Pick(len(sizePatterns))
				x.fil = c.Pick(496)
				x.nb = 5 + c.Pick(4)
				x.end = 496
				x.c.First = 17
				return &eng.Case{Title: title(x, ""), Run: func(e *eng.Env) *eng.Fail {
					slots, at, ws, pos := build(x)
					if slots == nil {
						return nil
					}
					o := redoLogs(e, dict, CircleFiles(slots, x.c.Per), "", "")
					e.Outcome(o.Text)
					return checkUpds(kept(at, ws, pos), o)
				}}
			},
		},
		{
			Name: "long-circles",
			Rule: fmt.Sprintf("logs of 1..4 files with %v blocks together, written once and cut after 1, 2, 3, a half, and powers of two and their neighbours of blocks of the second or third round (more than 5000 blocks: 1, a half, all but one): the updates that are there in full are printed, oldest first, and nothing else", longCircles(th)),
			Body: func(c *eng.Chooser) *eng.Case {
				var x lay
				x.c.Files = []int{1, 2, 4}[c.Pick(3)]
				ls := longCircles(th)
				x.c.Per = (ls[c.Pick(len(ls))] + x.c.Files - 1) / x.c.Files
				n := x.c.Files * x.c.Per
				cuts := []int{1, 2, 3, n / 2, n - 3, n - 2, n - 1, n}
				for p := 4; p < n; p *= 2 {
					cuts = append(cuts, p-1, p, p+1)
				}
				szs := []int{1, 3, 4}
				if n > 5000 {
					cuts, szs = []int{1, n / 2, n - 1}, []int{4}
				}
				x.nb = n*(1+c.Pick(2)) + cuts[c.Pick(len(cuts))]
				x.sz = szs[c.Pick(len(szs))]
				x.end = 300
				x.fil = 250
				x.c.First = 17
				if c.Bool() {
					x.c.First = 0x40000000 - uint32(n)
				}
				return &eng.Case{Title: title(x, ""), Run: func(e *eng.Env) *eng.Fail {
					slots, at, ws, pos := build(x)
					if slots == nil {
						return nil
					}
					o := redoLogs(e, dict, CircleFiles(slots, x.c.Per), "", "")
					e.Outcome(fmt.Sprint(len(o.Text)))
					return checkUpds(kept(at, ws, pos), o)
				}}
			},
		},
		{
			Name: "lost-block",
			Rule: "the same logs (up to 8 slots), each block in turn lost: zeroed, or its data length set to 0, 5, 600, 65535, or for all but the newest to 13, 300, 500 or 511: all updates that are in full in the other blocks are printed, oldest first, and nothing else but updates of that block",
			Body: func(c *eng.Chooser) *eng.Case {
				x, ok := small(c)
				n := x.c.Files * x.c.Per
				if !ok || n > 8 || n < 2 {
					return nil
				}
				s := c.Pick(n)
				how := c.Pick(len(lens))
				if how > 4 && s == (x.nb-1)%n {
					return nil
				}
				return &eng.Case{Title: title(x, fmt.Sprintf(", slot %d lost (%d)", s, how)), Run: func(e *eng.Env) *eng.Fail {
					slots, at, ws, pos := build(x)
					if slots == nil {
						return nil
					}
					if how == 0 {
						slots[s] = make([]byte, 512)
					} else {
						b := append([]byte{}, slots[s]...)
						copy(b[4:6], b2(lens[how]))
						slots[s] = b
					}
					whole := kept(at, ws, pos)
					for b, k := range at {
						if k == s {
							at[b] = -1
						}
					}
					o := redoLogs(e, dict, CircleFiles(slots, x.c.Per), "", "")
					e.Outcome(o.Text)
					if o.Panic != "" {
						return eng.Failf("panic", "the tool panicked: %s", o.Panic)
					}
					if how > 4 {
						return checkUpdSome(kept(at, ws, pos), whole, o.Text)
					}
					return checkUpdText(kept(at, ws, pos), o.Text)
				}}
			},
		},
		{
			Name: "torn-write",
			Rule: fmt.Sprintf("the same logs, the crash tore the last write of 2..%d blocks: any subset of them with the newest did not reach the disk, their slots hold what was there before: the updates that are in full in the blocks that are there are printed, once each and in any order, and nothing else", tornMax),
			Body: func(c *eng.Chooser) *eng.Case {
				x, ok := small(c)
				n := x.c.Files * x.c.Per
				if !ok || x.c.Pads > 0 {
					return nil
				}
				x.c.Torn = 2 * (1 + c.Pick(1<<(tornMax-1)-1))
				if x.c.Torn>>min(x.nb, n) != 0 {
					return nil
				}
				return &eng.Case{Title: title(x, fmt.Sprintf(", lost blocks %b", x.c.Torn)), Run: func(e *eng.Env) *eng.Fail {
					slots, at, ws, pos := build(x)
					if slots == nil {
						return nil
					}
					o := redoLogs(e, dict, CircleFiles(slots, x.c.Per), "", "")
					e.Outcome(o.Text)
					if o.Panic != "" {
						return eng.Failf("panic", "the tool panicked: %s", o.Panic)
					}
					return checkUpdSet(kept(at, ws, pos), o.Text)
				}}
			},
		},
	}
}

func init() {
	eng.Register(&eng.Check{ID: "C24", Title: "logs in a circle", Level: "model_checking", Spaces: c24})
}
