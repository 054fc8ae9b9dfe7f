package export

import (
	"strings"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/inf"
	gv "github.com/qiniu/uip/verifgv"
	"github.com/qiniu/uip/verifgv/std"
)

//gv:contract offset
//gv:props C12
func gvOffset(fields []string, key string) {
	r := offset(fields, key)
	gv.Ensures(field.GvAt(r, key, fields))
}

//gv:inv offset
func gvOffsetLoop(fields []string, key string, rangeindex int) {
	gv.Inv(gv.Forall(0, rangeindex+1, func(i int) bool { return fields[i] != key }))
}

// gvFirst says that place i of the fields is the first of its name.
func gvFirst(fields []string, i int) bool {
	return 0 <= i && i < len(fields) && gv.Forall(0, i, func(j int) bool { return fields[j] != fields[i] })
}

// gvAmong says that ret are places of fields that are among the first n keys.
func gvAmong(ret []int, fields, keys []string, n int) bool {
	return gv.Forall(0, len(ret), func(i int) bool {
		return gvFirst(fields, ret[i]) && gv.Exists(0, n, func(k int) bool { return keys[k] == fields[ret[i]] })
	})
}

// gvCnt is the number of those of the first n keys that are fields.
//
//gv:spec rec
func gvCnt(fields, keys []string, n int) int {
	if n <= 0 {
		return 0
	}
	if field.GvIn(keys[n-1], fields) {
		return gvCnt(fields, keys, n-1) + 1
	}
	return gvCnt(fields, keys, n-1)
}

// gvEach says that each of the first n keys that is a field has its place in ret, in order.
func gvEach(ret []int, fields, keys []string, n int) bool {
	return len(ret) == gvCnt(fields, keys, n) && gv.Forall(0, n, func(k int) bool {
		c := gvCnt(fields, keys, k)
		return gv.Forall(0, len(fields), func(j int) bool { return fields[j] != keys[k] }) ||
			0 <= c && c < len(ret) && fields[ret[c]] == keys[k]
	})
}

//gv:contract offsets
//gv:props C12
func gvOffsets(fields []string, keys []string) {
	r := offsets(fields, keys)
	gv.Ensures(gvAmong(r, fields, keys, len(keys)))
	gv.Ensures(gvEach(r, fields, keys, len(keys)))
	gv.Ensures(gv.Fresh(r))
}

//gv:inv offsets 0
func gvOffsetsLoop0(fields, keys []string, ret []int, rangeindex int) {
	gv.Inv(gvAmong(ret, fields, keys, rangeindex+1))
	gv.Inv(gvEach(ret, fields, keys, rangeindex+1))
	gv.Inv(gv.Fresh(ret))
}

//gv:inv offsets 1
func gvOffsetsLoop1(fields []string, k string, rangeindex int) {
	gv.Inv(gv.Forall(0, rangeindex+1, func(i int) bool { return fields[i] != k }))
}

//gv:contract _Filter.match
//gv:props C12
func gvMatch(f *_Filter, value string) {
	gv.Requires(f != nil)
	r := f.match(value)
	gv.Ensures(r == (field.GvIn(value, f.condition.values) != f.condition.not))
}

// gvFilter says that a filter refers to columns of a row of n values.
func gvFilter(f *_Filter) bool {
	return f != nil && f.keyOffset >= 0 && gv.Forall(0, len(f.fieldsOffsets), func(i int) bool { return f.fieldsOffsets[i] >= 0 })
}

// gvKept says that a filter keeps column i.
func gvKept(f *_Filter, i int) bool {
	return gv.Exists(0, len(f.fieldsOffsets), func(k int) bool { return f.fieldsOffsets[k] == i })
}

// gvMatches says that a filter applies to a row with this value in its key column.
func gvMatches(f *_Filter, v string) bool {
	return field.GvIn(v, f.condition.values) != f.condition.not
}

//gv:contract _Filter.extract
//gv:props C12
func gvExtract(f *_Filter, data []string) {
	gv.Requires(gvFilter(f))
	r := f.extract(data)
	on := f.keyOffset < len(data) && gvMatches(f, data[f.keyOffset])
	gv.Ensures(len(r) == len(data))
	gv.Ensures(gv.Forall(0, len(r), func(i int) bool {
		return on && !gvKept(f, i) && r[i] == "" || !(on && !gvKept(f, i)) && r[i] == data[i]
	}))
}

//gv:inv _Filter.extract
func gvExtractLoop(f *_Filter, data, ret []string, rangeindex int) {
	gv.Inv(len(ret) == len(data) && gv.Fresh(ret))
	gv.Inv(gv.Forall(0, len(ret), func(i int) bool {
		k := gv.Exists(0, rangeindex+1, func(k int) bool { return f.fieldsOffsets[k] == i })
		return k && ret[i] == data[i] || !k && ret[i] == ""
	}))
}

//gv:contract Select
//gv:props C11,C12
func gvSelect(fMap map[string]string, fields []string) {
	r := Select(fMap, fields)
	gv.Ensures(len(r) == len(fields))
	gv.Ensures(gv.Forall(0, len(r), func(i int) bool { return gvPair(fMap, fields[i], r[i]) }))
	gv.Ensures(gv.Fresh(r))
}

// gvPair is the source's name of a field, if it has one.
func gvPair(fMap map[string]string, name string, p field.Pair) bool {
	v, ok := fMap[name]
	if ok {
		return p.Ext == name && p.Intern == v
	}
	return p.Ext == "" && p.Intern == ""
}

//gv:inv Select 0
func gvSelectLoop0(fMap map[string]string, fields []string, ret []field.Pair, rangeindex int) {
	gv.Inv(len(ret) == rangeindex+1 && gv.Fresh(ret))
	gv.Inv(gv.Forall(0, len(ret), func(i int) bool { return gvPair(fMap, fields[i], ret[i]) }))
}

//gv:inv Select 1
func gvSelectLoop1(f string, p field.Pair) {
	gv.Inv(p.Ext == "" && p.Intern == "" && !gv.Seen(f))
}

//gv:contract Exporter.remapKey
//gv:props C12
func gvRemapKey(e *Exporter, fieldMap []field.Pair, data map[string]string) {
	gv.Requires(e != nil && len(fieldMap) <= len(e.fields))
	r := e.remapKey(fieldMap, data)
	gv.Ensures(len(r) == len(e.fields))
	gv.Ensures(gv.Forall(0, len(r), func(i int) bool { return r[i] == gvSource(fieldMap, data, i) }))
	gv.Ensures(gv.Fresh(r))
}

// gvSource is the source's value of field i, empty where it has none.
func gvSource(fieldMap []field.Pair, data map[string]string, i int) string {
	if i >= len(fieldMap) {
		return ""
	}
	return data[fieldMap[i].Intern]
}

//gv:inv Exporter.remapKey
func gvRemapKeyLoop(e *Exporter, fieldMap []field.Pair, data map[string]string, ret []string, rangeindex int) {
	gv.Inv(len(ret) == len(e.fields) && gv.Fresh(ret))
	gv.Inv(gv.Forall(0, len(ret), func(i int) bool {
		return ret[i] == "" && (i > rangeindex || i >= len(fieldMap)) || i <= rangeindex && ret[i] == gvSource(fieldMap, data, i)
	}))
}

// gvAfter is column i of a row after the first n conditional groups.
//
//gv:spec rec entry
func gvAfter(filters []*_Filter, n int, row []string, i int) string {
	if n <= 0 {
		return row[i]
	}
	f := filters[n-1]
	if gvMatches(f, gvAfter(filters, n-1, row, f.keyOffset)) && !gvKept(f, i) {
		return ""
	}
	return gvAfter(filters, n-1, row, i)
}

// gvRule says that an exporter's groups refer to its fields.
func gvRule(e *Exporter) bool {
	return e != nil && gv.Forall(0, len(e.filters), func(i int) bool { return gvFilter(e.filters[i]) && e.filters[i].keyOffset < len(e.fields) })
}

//gv:contract Exporter.Export
//gv:props C11,C12
func gvExport(e *Exporter, fieldMap []field.Pair, data map[string]string, row []string) {
	gv.Requires(gvRule(e) && len(fieldMap) <= len(e.fields) && len(row) == len(e.fields))
	gv.Requires(gv.Forall(0, len(row), func(i int) bool { return row[i] == gvSource(fieldMap, data, i) }))
	r := e.Export(fieldMap, data)
	gv.Ensures(len(r) == len(e.fields))
	gv.Ensures(gv.Forall(0, len(r), func(i int) bool { return r[i] == gvAfter(e.filters, len(e.filters), row, i) }))
}

//gv:inv Exporter.Export
func gvExportLoop(e *Exporter, ret, row []string, rangeindex int) {
	gv.Inv(len(ret) == len(e.fields))
	gv.Inv(gv.Forall(0, len(ret), func(i int) bool { return ret[i] == gvAfter(e.filters, rangeindex+1, row, i) }))
}

// The parts of a rule, group by group.

func gvGroup(rule string, k int) string { return std.SplitAt(rule, SelectorGroupSep, k) }
func gvHead(rule string, k int) string  { return std.SplitAt(gvGroup(rule, k), SelectorFieldSep, 0) }

// gvListedN is the number of fields a group lists.
func gvListedN(rule string, k int) int { return std.SplitN(gvGroup(rule, k), SelectorFieldSep) }

// gvListed is one of the fields a conditional group lists.
func gvListed(rule string, k, j int) string {
	if j == 0 {
		return std.SplitAt(gvHead(rule, k), SelectorRuleSep, 1)
	}
	return std.SplitAt(gvGroup(rule, k), SelectorFieldSep, j)
}

// gvCond is the condition of a group.
func gvCond(rule string, k int) string { return std.SplitAt(gvHead(rule, k), SelectorRuleSep, 0) }

// gvDefaultN and gvDefault are the default fields.
func gvDefaultN(rule string) int { return std.SplitN(gvGroup(rule, 0), SelectorFieldSep) }
func gvDefault(rule string, i int) string {
	return std.SplitAt(gvGroup(rule, 0), SelectorFieldSep, i)
}

// gvIsDefault says that a name is one of the default fields.
func gvIsDefault(rule, name string) bool {
	return gv.Exists(0, gvDefaultN(rule), func(i int) bool { return gvDefault(rule, i) == name })
}

// gvCondOK says that a condition is well formed and about a field.
func gvCondOK(kc string, fields []string) bool {
	return std.SplitN(kc, SelectorKeyValueSep) == 2 && field.GvIn(std.SplitAt(kc, SelectorKeyValueSep, 0), fields)
}

// gvIsCond says that a filter has the condition kc.
func gvIsCond(f *_Filter, kc string, fields []string) bool {
	v := std.SplitAt(kc, SelectorKeyValueSep, 1)
	w := v
	if strings.HasPrefix(v, SelectorValueNot) {
		w = v[1:]
	}
	vs := f.condition.values
	return f.keyOffset >= 0 && field.GvAt(f.keyOffset, std.SplitAt(kc, SelectorKeyValueSep, 0), fields) &&
		f.condition.not == strings.HasPrefix(v, SelectorValueNot) &&
		len(vs) == std.SplitN(w, SelectorValueOr) && gv.Forall(0, len(vs), func(i int) bool { return vs[i] == std.SplitAt(w, SelectorValueOr, i) })
}

//gv:contract Exporter.buildFilter
//gv:props C12
func gvBuildFilter(e *Exporter, kc string, fields []string) {
	gv.Requires(e != nil)
	r := e.buildFilter(kc, fields)
	gv.Ensures((r != nil) == gvCondOK(kc, e.fields))
	gv.Ensures(gv.Fresh(r))
	if r != nil {
		gv.Ensures(gvIsCond(r, kc, e.fields))
		gv.Ensures(gvAmong(r.fieldsOffsets, e.fields, fields, len(fields)))
		gv.Ensures(gvEach(r.fieldsOffsets, e.fields, fields, len(fields)))
		gv.Ensures(gv.Fresh(r.fieldsOffsets) && gv.Fresh(r.condition.values))
	}
}

// gvValid says that a conditional group is well formed and names default fields only.
func gvValid(rule string, k int) bool {
	return std.SplitN(gvHead(rule, k), SelectorRuleSep) == 2 &&
		gv.Forall(0, gvListedN(rule, k), func(j int) bool { return gvIsDefault(rule, gvListed(rule, k, j)) }) &&
		std.SplitN(gvCond(rule, k), SelectorKeyValueSep) == 2 &&
		gvIsDefault(rule, std.SplitAt(gvCond(rule, k), SelectorKeyValueSep, 0))
}

// gvPlace is the number of valid conditional groups before group k.
//
//gv:spec rec
func gvPlace(rule string, k int) int {
	if k <= 1 {
		return 0
	}
	if gvValid(rule, k-1) {
		return gvPlace(rule, k-1) + 1
	}
	return gvPlace(rule, k-1)
}

// gvFieldsOf says that the exporter has the default fields of the rule.
func gvFieldsOf(e *Exporter, rule string) bool {
	return len(e.fields) == gvDefaultN(rule) && gv.Forall(0, len(e.fields), func(i int) bool { return e.fields[i] == gvDefault(rule, i) })
}

// gvLists says that a filter keeps the fields group k lists: field number j of the group is kept, and what is kept
// first of its name and listed.
func gvLists(f *_Filter, fields []string, rule string, k, j int) bool {
	offs := f.fieldsOffsets
	return gv.Forall(0, len(offs), func(i int) bool {
		return gvFirst(fields, offs[i]) && gv.Exists(0, gvListedN(rule, k), func(l int) bool { return gvListed(rule, k, l) == fields[offs[i]] })
	}) && (j < 0 || j >= gvListedN(rule, k) || gv.Exists(0, len(offs), func(i int) bool {
		return offs[i] >= 0 && offs[i] < len(fields) && fields[offs[i]] == gvListed(rule, k, j)
	}))
}

// gvParseRule: the group g and the field j it lists are arbitrary.
//
//gv:bounded the lists of groups and fields (three nested quantifiers) are outside the solvers' reach; rules are parsed natively
//gv:props C12
func gvParseRule(rule string, g, j int) {
	r := ParseRule(rule)
	gv.Ensures((r == nil) == (rule == ""))
	if r == nil {
		return
	}
	e, ok := r.(*Exporter)
	gv.Ensures(ok && e != nil && gvFieldsOf(e, rule))
	gv.Ensures(len(e.filters) == gvPlace(rule, std.SplitN(rule, SelectorGroupSep)))
	if g >= 1 && g < std.SplitN(rule, SelectorGroupSep) && gvValid(rule, g) {
		p := gvPlace(rule, g)
		gv.Ensures(0 <= p && p < len(e.filters) && e.filters[p] != nil)
		f := e.filters[p]
		gv.Ensures(gvIsCond(f, gvCond(rule, g), e.fields))
		gv.Ensures(gvLists(f, e.fields, rule, g, j))
	}
}

var _ inf.Exporter
