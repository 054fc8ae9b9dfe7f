package field

import gv "github.com/qiniu/uip/verifgv"

// gvNamed says that k is the known name of one of the first n fields.
func gvNamed(f map[string]string, fields []string, k string, n int) bool {
	v, ok := f[k]
	return ok && gv.Exists(0, n, func(j int) bool { return fields[j] == v })
}

// gvExtKeys says that the known names of fields are given, and nothing else; the field j and its name k stand for any.
//
//gv:contract ExtKeys
//gv:props C11
func gvExtKeys(f map[string]string, internFields []string) {
	r := ExtKeys(f, internFields)
	gv.Ensures(gv.Fresh(r))
	gv.Ensures(gv.Forall(0, len(r), func(i int) bool { return gvNamed(f, internFields, r[i], len(internFields)) }))
}

//gv:inv ExtKeys 0
func gvExtKeysLoop0(f map[string]string, internFields, keys []string, rangeindex int) {
	gv.Inv(gv.Fresh(keys))
	gv.Inv(gv.Forall(0, len(keys), func(i int) bool { return gvNamed(f, internFields, keys[i], rangeindex+1) }))
}

//gv:inv ExtKeys 1
func gvExtKeysLoop1(f map[string]string, internFields, keys []string, outerindex int) {
	gv.Inv(gv.Fresh(keys))
	gv.Inv(gv.Forall(0, len(keys), func(i int) bool { return gvNamed(f, internFields, keys[i], outerindex+1) }))
}
