package format

import (
	"github.com/qiniu/uip/db/inf"
	gv "github.com/qiniu/uip/verifgv"
)

// What is registered for an extension is what is given for it, and nothing else; k stands for any extension.

//gv:contract RegisterQueryFormat
//gv:props C18
func gvRegisterQuery(ext, k string, create inf.NewQuery) {
	gv.Requires(queryFormats != nil)
	gv.Modifies(queryFormats)
	f0, ok0 := queryFormats[k]
	RegisterQueryFormat(ext, create)
	f, ok := queryFormats[k]
	if k == ext {
		gv.Ensures(ok && gv.Same(f, create))
	} else {
		gv.Ensures(ok == ok0 && gv.Same(f, f0))
	}
}

//gv:contract GetQueryFormat
//gv:props C18
func gvGetQuery(ext string) {
	f := GetQueryFormat(ext)
	gv.Ensures(gv.Same(f, queryFormats[ext]))
}

//gv:contract RegisterDumpFormat
//gv:props C18
func gvRegisterDump(ext, k string, create inf.Dump) {
	gv.Requires(dumpFormats != nil)
	gv.Modifies(dumpFormats)
	f0, ok0 := dumpFormats[k]
	RegisterDumpFormat(ext, create)
	f, ok := dumpFormats[k]
	if k == ext {
		gv.Ensures(ok && gv.Same(f, create))
	} else {
		gv.Ensures(ok == ok0 && gv.Same(f, f0))
	}
}

//gv:contract GetDumpFormat
//gv:props C18
func gvGetDump(ext string) {
	f := GetDumpFormat(ext)
	gv.Ensures(gv.Same(f, dumpFormats[ext]))
}

//gv:contract RegisterPackFormat
//gv:props C18
func gvRegisterPack(ext, k string, create inf.Pack) {
	gv.Requires(packFormats != nil)
	gv.Modifies(packFormats)
	f0, ok0 := packFormats[k]
	RegisterPackFormat(ext, create)
	f, ok := packFormats[k]
	if k == ext {
		gv.Ensures(ok && gv.Same(f, create))
	} else {
		gv.Ensures(ok == ok0 && gv.Same(f, f0))
	}
}

//gv:contract GetPackFormat
//gv:props C18
func gvGetPack(ext string) {
	f := GetPackFormat(ext)
	gv.Ensures(gv.Same(f, packFormats[ext]))
}
