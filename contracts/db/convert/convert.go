package convert

import (
	"bytes"
	"errors"
	"io"
	"os"
	"path/filepath"

	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/inf"
	gv "github.com/qiniu/uip/verifgv"
)

var errGv = errors.New("broken")

// gvConvert dumps and packs files with some made-up formats registered: the format of the extension is used, and only it;
// the operations are applied once each, in order.
//
//gv:bounded formats are function values in a registry and files are outside the verifier's reach; run natively
//gv:props C18
func gvConvert(exts []string, kind string, data []byte, rule string, ops int) {
	for i := 0; i < len(kind); i++ {
		gv.Requires(kind[i] != 0 && kind[i] != '/' && (kind[i] == '.') == (i == 0)) // the extension of a file name that ends in it
	}
	dumped, packed := map[string]int{}, map[string]int{}
	result := &inf.IpData{}
	for i, e := range exts {
		e, i := e, i
		format.RegisterDumpFormat(e, func(b []byte, x inf.Exporter) (*inf.IpData, error) {
			dumped[e] = i + 1
			gv.Ensures(bytes.Equal(b, data) && (x == nil) == (rule == ""))
			if x != nil {
				a, b := x.Fields(), export.ParseRule(rule).Fields()
				gv.Ensures(len(a) == len(b) && len(a) > 0 && a[0] == b[0])
			}
			if len(b) == 0 {
				return nil, errGv
			}
			return result, nil
		})
		format.RegisterPackFormat(e, func(d *inf.IpData, w io.Writer) error {
			packed[e] = i + 1
			gv.Ensures(d == result)
			w.Write([]byte("packed"))
			_, err := w.Write(data)
			if len(data) == 0 {
				return errGv
			}
			return err
		})
	}
	defer func() {
		for _, e := range exts {
			format.RegisterDumpFormat(e, nil)
			format.RegisterPackFormat(e, nil)
		}
	}()
	at := 0
	for i, e := range exts {
		if e == kind {
			at = i + 1
		}
	}
	good := at > 0 && len(data) > 0
	dir, err := os.MkdirTemp("", "gv")
	gv.Requires(err == nil)
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "x.y"+kind)
	_, err = DumpFile(file, rule, nil)
	gv.Ensures(err != nil && len(dumped) == 0)
	gv.Requires(os.WriteFile(file, data, 0600) == nil)
	var done []int
	var l []operate.Operate
	for i := 0; i < ops; i++ {
		i := i
		l = append(l, func(d *inf.IpData) {
			gv.Ensures(d == result)
			done = append(done, i)
		})
	}
	d, err := DumpFile(file, rule, l)
	gv.Ensures((err == nil) == good && (err == nil || d == nil))
	gv.Ensures(dumped[kind] == at && (at == 0 && len(dumped) == 0 || at > 0 && len(dumped) == 1))
	if good {
		gv.Ensures(d == result && len(done) == ops)
		for i := range done {
			gv.Ensures(done[i] == i)
		}
	} else {
		gv.Ensures(len(done) == 0)
	}
	want := "packed" + string(data)
	var w bytes.Buffer
	err = PackWriter(kind, result, &w)
	gv.Ensures((err == nil) == good && (!good || w.String() == want))
	gv.Ensures(packed[kind] == at && (at == 0 && len(packed) == 0 || at > 0 && len(packed) == 1))
	b, err := PackBytes(kind, result)
	gv.Ensures((err == nil) == good && (!good || string(b) == want))
	out := filepath.Join(dir, "z.w"+kind)
	err = PackFile(out, result)
	gv.Ensures((err == nil) == good)
	if good {
		b, err = os.ReadFile(out)
		gv.Ensures(err == nil && string(b) == want)
	}
	gv.Ensures(PackFile(filepath.Join(dir, "none", "z"+kind), result) != nil)
}

// gvPackWriter says that data is written by the writer registered for the kind, and by no other.
//
//gv:contract PackWriter
//gv:props C18
func gvPackWriter(kind string, ipData *inf.IpData, writer io.Writer) {
	f := format.GetPackFormat(kind)
	err := PackWriter(kind, ipData, writer)
	gv.Ensures((err == nil) == (f != nil && inf.GvPacks(f, ipData, writer)))
}
