package props

import (
	"fmt"

	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/redo"

	"verif/mc/eng"
	. "verif/mc/innodb"
)

// C20: what the operating system returns from one read does not matter.
func c20(th bool) []*eng.Space {
	t := damageTable(false)
	mk := func(i int) Row { return damageRow(i) }
	rows := []Row{mk(1), mk(2), mk(3)}
	pages := map[uint32][]byte{3: leafPage(t, 3, rows[:1]).Bytes(), 4: leafPage(t, 4, rows[1:2]).Bytes(), 5: leafPage(t, 5, rows[2:]).Bytes()}
	data := Tablespace(t.Space, pages)
	dict := dictOf(t)
	st := sentinelTable()
	rdict := dictOf(st)
	l := newLog()
	var upds []Upd
	for i := 0; i < 40; i++ {
		s, w := sentinel(st, i)
		l.add(s.LogRec(7, 300))
		upds = append(upds, w)
	}
	log := l.files(0)[0]
	step := 512
	if th {
		step = 64
	}
	points := func(n, align int) []int {
		var ps []int
		for i := 1; i < n; i++ {
			if i%step == 0 || i%align == 1 || i%align == align-1 {
				ps = append(ps, i)
			}
		}
		return ps
	}
	readData := func(e *eng.Env, dsz, tsz []int) *eng.Fail {
		dp, tp := e.File("ibdata1", dict), e.File("t.ibd", data)
		if dsz != nil {
			p, stop := e.Pipe("pipe-dict", dict, dsz)
			defer stop()
			dp = p
		}
		if tsz != nil {
			p, stop := e.Pipe("pipe-data", data, tsz)
			defer stop()
			tp = p
		}
		o := e.Capture(func() error {
			p := ibdata.NewParse()
			if err := p.ParseDictPage(dp); err != nil {
				return err
			}
			return p.ParseDataPage(tp, t.DB, t.Name, false)
		})
		e.Outcome(o.Text)
		return checkRows(t, rows, o)
	}
	readLog := func(e *eng.Env, sz []int) *eng.Fail {
		dp := e.File("ibdata1", rdict)
		lp, stop := e.Pipe("pipe-log", log, sz)
		defer stop()
		o := e.Capture(func() error {
			p := redo.NewParse("", "")
			if err := p.ParseDictPage(dp); err != nil {
				return err
			}
			return p.ParseRedoLogs([]string{lp})
		})
		e.Outcome(o.Text)
		return checkUpds(upds, o)
	}
	type src struct {
		name  string
		n     int
		align int
		run   func(e *eng.Env, sz []int) *eng.Fail
	}
	srcs := []src{
		{"log", len(log), 512, readLog},
		{"data file", len(data), 16384, func(e *eng.Env, sz []int) *eng.Fail { return readData(e, nil, sz) }},
		{"dictionary", len(dict), 16384, func(e *eng.Env, sz []int) *eng.Fail { return readData(e, sz, nil) }},
	}
	chunks := []int{1000, 511, 512, 513, 1024, 4096, 16383, 16384, 16385, 10000, 65536}
	return []*eng.Space{
		{
			Name: "one-short-read",
			Rule: fmt.Sprintf("the log, the data file and the dictionary read from a pipe, one short read at each of the file offsets that are multiples of %d or next to a block or page boundary", step),
			Body: func(c *eng.Chooser) *eng.Case {
				s := srcs[c.Pick(len(srcs))]
				ps := points(s.n, s.align)
				at := ps[c.Pick(len(ps))]
				return &eng.Case{Title: func() string { return fmt.Sprintf("%s of %d bytes from a pipe, a short read at %d", s.name, s.n, at) },
					Run: func(e *eng.Env) *eng.Fail { return s.run(e, []int{at}) }}
			},
		},
		{
			Name: "even-pieces",
			Rule: fmt.Sprintf("each of them from a pipe in pieces of the same size, sizes %v", chunks),
			Body: func(c *eng.Chooser) *eng.Case {
				s := srcs[c.Pick(len(srcs))]
				k := chunks[c.Pick(len(chunks))]
				return &eng.Case{Title: func() string { return fmt.Sprintf("%s from a pipe in pieces of %d bytes", s.name, k) },
					Run: func(e *eng.Env) *eng.Fail {
						var sz []int
						for i := 0; i < s.n; i += k {
							sz = append(sz, k)
						}
						return s.run(e, sz)
					}}
			},
		},
	}
}

func init() {
	eng.Register(&eng.Check{ID: "C20", Title: "input in pieces", Level: "model_checking", Spaces: c20})
}
