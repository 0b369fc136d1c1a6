package main

import (
	g "github.com/urban-wombat/gotables"
)

// otherWork uses the library on tables that have nothing to do with the case. What a case holds already (an encoding,
// a decoded table, a copy, a byte slice) must not be touched by it: nothing is shared by way of a buffer, a pool or a
// table kept from an earlier call.
func otherWork(c *Case) {
	r := c.R
	o := genOpts{minCols: 1, maxCols: 4, minRows: 1, maxRows: 4, keys: true, shape: true, noNaN: true, noInf: true, utf8Only: true}
	for n := 1 + r.IntN(2); n > 0; n-- {
		o.types = allTypes
		o.depth = r.IntN(2)
		kind := r.IntN(8)
		if kind == 2 || kind == 3 {
			o.types = gobTypes
		}
		m := genTable(r, o)
		t := build(c, m)
		switch kind {
		case 0:
			if x, err := t.GetTableAsJSON(); err == nil {
				g.NewTableFromJSON(x)
			}
		case 1:
			s := buildSet(c, "other", []*MTable{m})
			if x, err := s.GetTableSetAsYAML(); err == nil {
				g.NewTableSetFromYAML(x)
			}
		case 2, 3:
			if x, err := t.GobEncode(); err == nil {
				if t2, err := g.NewTableFromGob(x); err == nil {
					spoilBytes(t2)
				}
			}
		case 4:
			t.Sort()
			t.Reverse()
			if t2, err := g.NewTableFromString(t.StringUnpadded()); err == nil {
				spoilBytes(t2)
				t2.DeleteRow(0)
				t2.AppendRow()
			}
		case 5:
			if t2, err := t.CopyDeep(); err == nil {
				spoilBytes(t2)
			}
			t.Copy()
			t.AppendRows(2)
			t.DeleteRow(0)
		case 6:
			t.GetTableAsCSV()
			t.GenerateTypeStruct()
			t.Equals(t)
			t.IsValidTable()
		default:
			pick(r, readings(c, r, m)).call(t)
		}
		spoilBytes(t)
		c.Ev("other_work", 1)
	}
}

// spoilBytes overwrites every byte of every byte slice of a table.
func spoilBytes(t *g.Table) {
	for ci := 0; ci < t.ColCount(); ci++ {
		for ri := 0; ri < t.RowCount(); ri++ {
			v, _ := t.GetValByColIndex(ci, ri)
			if b, ok := v.([]byte); ok {
				for i := range b {
					b[i] ^= 0x5A
				}
			}
		}
	}
}

// disturb does other work now and then.
func disturb(c *Case) {
	if chance(c.R, 4) {
		otherWork(c)
	}
}

// decodeAgain decodes once more what gave the table t, after t was changed: the result must be what it was.
func decodeAgain(c *Case, what string, t *g.Table, decode func() (*g.Table, error)) {
	if !chance(c.R, 4) {
		return
	}
	want := snapshot(t)
	for _, x := range append(deepTables(t), t) {
		ownNilTables(c, x, nil, what)
	}
	t2, err := decode()
	if err != nil {
		c.Failf("%s a second time: %v", what, err)
	}
	spoilBytes(t)
	scramble(c, t)
	if d := diffTables(want, snapshot(t2), cmpOpts{}); d != "" {
		c.Failf("%s twice: changing the first result changed the second: %s", what, d)
	}
	t3, err := decode()
	if err != nil {
		c.Failf("%s after changing an earlier result: %v", what, err)
	}
	if d := diffTables(want, snapshot(t3), cmpOpts{}); d != "" {
		c.Failf("%s after changing an earlier result: %s", what, d)
	}
	c.Ev("decoded_again", 1)
}
