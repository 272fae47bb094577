// Package wire is served over GoRPC (and TSRPC, to share one implementation).
package wire

import (
	"net/http"
	"time"

	"gotsrpcsim/svc/other"
)

type Doc struct {
	ID    string
	N     int64
	Tags  []string
	Attrs map[string]string
	Kids  []Doc
	P     *other.Point
}

type Wire interface {
	Echo(id string, d Doc) (out Doc)
	EchoPtr(id string, d *Doc) (out *Doc)
	Pair(id string, a string, b string) (x string, y string)
	Nums(id string, i int, i64 int64, u uint, f float64, b bool) (int, int64, uint, float64, bool)
	Bulk(id string, ds []Doc, m map[string]other.Point) (rds []Doc, rm map[string]other.Point)
	OneWay(id string, n int64)
	Pulse() string
	Nop()
	Slow(id string, ms int64) string
	Deep(id string, g [][]string, m map[string][]int64, k map[int]string, t map[other.Tag]int32) (rg [][]string, rm map[string][]int64, rk map[int]string, rt map[other.Tag]int32)
	Times(id string, t time.Time, d time.Duration, ts []time.Time) (time.Time, time.Duration, []time.Time)
	Bytes(id string, b []byte, i8 int8, u16 uint16) ([]byte, int8, uint16)
	Sess(w http.ResponseWriter, r *http.Request, id string, d *Doc) (out string, rd *Doc)
}

// Wire2 has methods with the same names as Wire's on another GoRPC server.
type Wire2 interface {
	Echo(id string, d Doc) (out Doc)
	Pair(id string, a string, b string) (x string, y string)
	Note(id string, n int64)
}
