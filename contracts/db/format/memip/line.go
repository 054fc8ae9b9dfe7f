package memip

import (
	"github.com/qiniu/uip/ipnet"
	gv "github.com/qiniu/uip/verifgv"
	"github.com/qiniu/uip/verifgv/std"
)

// gvEndOK says that s is the text of an end of a range.
func gvEndOK(s string, v6 bool) bool {
	if v6 {
		return std.ParseOK(s)
	}
	return std.UintOK(s, 10, 32)
}

// gvEnd is the number of the address that s is the text of.
func gvEnd(s string, v6 bool) gv.N {
	if v6 {
		return std.ParseN(s)
	}
	return gv.Add(gv.Shl(gv.U(0xffff), 32), gv.U(std.UintV(s, 10, 32)))
}

// gvPart is the i-th of the parts of a line.
func gvPart(line string, i int) string { return std.SplitAt(line, " ", i) }

// gvGood says that line is: first address, last address, a view of as many values as there are fields.
func gvGood(line string) bool {
	if std.SplitN(line, " ") != 3 {
		return false
	}
	v6 := std.HasSub(gvPart(line, 0), ":")
	if !gvEndOK(gvPart(line, 0), v6) || !gvEndOK(gvPart(line, 1), v6) {
		return false
	}
	return gv.Le(gvEnd(gvPart(line, 0), v6), gvEnd(gvPart(line, 1), v6)) && std.SplitN(gvPart(line, 2), "-") == len(fields)
}

//gv:contract parseLine
//gv:props C17
//gv:inline parseV4Range
//gv:inline parseV6Range
//gv:inline splitView
//gv:inline ipnet.Uint32ToIPv4
func gvParseLine(line string) {
	rg, view, err := parseLine(line)
	gv.Ensures((err == nil) == gvGood(line))
	if err == nil {
		gv.Ensures(gvRange(rg, line) && gv.Fresh(rg) && gv.Fresh(rg.Start) && gv.Fresh(rg.End))
		gv.Ensures(gvViewOf(view, line) && gv.Fresh(view))
		gv.Ensures(std.Key(view) == gvViewKey(line) && ipnet.GvRange(rg))
	}
}

// gvRange says that rg is the range of a line.
func gvRange(rg *ipnet.Range, line string) bool {
	v6 := std.HasSub(gvPart(line, 0), ":")
	return rg != nil && (len(rg.Start) == 4 || len(rg.Start) == 16) && len(rg.End) == len(rg.Start) &&
		ipnet.GvA(rg.Start) == gvEnd(gvPart(line, 0), v6) && ipnet.GvA(rg.End) == gvEnd(gvPart(line, 1), v6)
}

// gvViewKey stands for the view of a line.
func gvViewKey(line string) string { return std.SplitKey(gvPart(line, 2), "-") }

// gvViewOf says that view is that of a line.
func gvViewOf(view []string, line string) bool {
	return len(view) == 6 && gv.Forall(0, len(view), func(i int) bool { return view[i] == std.SplitAt(gvPart(line, 2), "-", i) })
}
