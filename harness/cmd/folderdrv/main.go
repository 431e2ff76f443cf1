// folderdrv asks package numberedfolders for the path of each number.
package main

import (
	"strconv"

	"github.com/KitchenMishap/pudding-shed/numberedfolders"
	"verifharness/vh"
)

func main() {
	vh.Run(func(sc vh.Scenario, dir string, t *vh.Trace) {
		df, dd := vh.I(sc.Cfg, "df"), vh.I(sc.Cfg, "dd")
		nf := numberedfolders.NewNumberedFolders(int(df), int(dd))
		t.Add(vh.M{"op": "new"})
		for _, s := range vh.Strs(sc.Cfg, "nums") {
			n, err := strconv.ParseInt(s, 10, 64)
			vh.Must(err)
			fo, fi, num := nf.NumberToFoldersAndFile(n)
			t.Add(vh.M{"op": "map", "num": s, "df": df, "folders": fo, "file": fi, "filenum": strconv.FormatInt(num, 10)})
		}
	})
}
