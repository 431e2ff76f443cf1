// mapdrv replays histories of the growing-array map store (package intarrayarray).
package main

import (
	"fmt"
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/intarrayarray"
	"verifharness/vh"
)

func reopens(ops []vh.M, j int) bool { return j+1 < len(ops) && vh.S(ops[j+1], "op") == "reopen" }

func main() {
	vh.Run(func(sc vh.Scenario, dir string, t *vh.Trace) {
		w := vh.I(sc.Cfg, "w")
		cached := vh.B(sc.Cfg, "cached")
		gen := 0
		path := func() string { return filepath.Join(dir, fmt.Sprint("g", gen)) }
		creator := func(p string, c bool) *intarrayarray.ConcreteMapStoreCreator {
			return intarrayarray.NewConcreteMapStoreCreator("m", p, vh.I(sc.Cfg, "df"), vh.I(sc.Cfg, "dd"), w, c)
		}
		val := func(id int64) int64 {
			v := uint64(id) * 0x9E3779B97F4A7C15
			if w < 8 {
				v &= (uint64(1) << (8 * uint(w))) - 1
			}
			return int64(v)
		}
		toID := map[int64]int64{}
		for i := int64(0); i <= 255; i++ {
			toID[val(i)] = i
		}
		ids := func(vs []int64) []int64 {
			r := []int64{}
			for _, v := range vs {
				if x, ok := toID[v]; ok {
					r = append(r, x)
				} else {
					r = append(r, -1)
				}
			}
			return r
		}
		var m intarrayarray.IntArrayMapStoreReadWrite
		var err error
		lim := vh.NoLimits()
		defer lim.Lift()
		ro := func(keys []int64) [][]int64 {
			lim.Lift()
			defer lim.Set()
			res := [][]int64{}
			if len(keys) == 0 {
				return res
			}
			r, err := creator(path(), cached).OpenMapReadOnly()
			for _, k := range keys {
				if err != nil {
					res = append(res, []int64{-3})
					continue
				}
				a, e := r.GetArray(k)
				if e != nil {
					res = append(res, []int64{-2})
				} else {
					res = append(res, ids(a))
				}
			}
			return res
		}
		for j, op := range sc.Ops {
			e := vh.M{}
			for k, v := range op {
				e[k] = v
			}
			switch vh.S(op, "op") {
			case "limit":
				lim.Lift()
				lim.From(op, path())
				lim.Set()
				err = nil
			case "new":
				gen++
				err = creator(path(), cached).CreateMap()
				if err == nil {
					m, err = creator(path(), cached).OpenMap()
				}
			case "append":
				err = m.AppendToArray(vh.I(op, "key"), val(vh.I(op, "v")))
				e["did"] = 0
			case "run":
				err = nil
				done := int64(-1)
				for k := int64(1); k <= vh.I(op, "n") && err == nil; k++ {
					done++
					err = m.AppendToArray(vh.I(op, "key"), val((vh.I(op, "seed")+k)%200+1))
				}
				e["did"] = done
			case "get":
				var a []int64
				a, err = m.GetArray(vh.I(op, "key"))
				e["vals"] = ids(a)
				if len(a) > 0 { // the caller owns what it gets
					for j := range a {
						a[j] = -77
					}
				}
			case "sync":
				err = m.Sync()
				e["disk"] = ro(vh.Ints(op, "keys"))
			case "flush":
				err = m.FlushFile()
				e["disk"] = ro(vh.Ints(op, "keys"))
			case "reopen":
				m, err = creator(path(), cached).OpenMap()
			case "crash":
				old := path()
				gen++
				lim.Lift()
				*lim = vh.Limits{Bytes: -1, Files: -1}
				vh.CopyDir(old, path())
				e["disk"] = ro(vh.Ints(op, "keys"))
				m, err = creator(path(), cached).OpenMap()
			}
			e["err"] = vh.Err(err)
			t.Add(e)
			if o := vh.S(op, "op"); err != nil && (o == "reopen" || o == "sync" && reopens(sc.Ops, j)) {
				break // nothing is open now, or what could not be stored would be forgotten
			}
		}
	})
}
