package main

import (
	"net/http"
	"time"

	"gotsrpcsim/svc/alt"
	"gotsrpcsim/svc/core"
	"gotsrpcsim/svc/other"
	"gotsrpcsim/svc/shapes"
	twin "gotsrpcsim/svc/twin/core"
	"gotsrpcsim/svc/wire"
)

// The services are plain typed Go; what they return is decided per call by the
// plan, so any mix-up between calls is visible in the values.

func as[T any](x any) (t T) {
	if x == nil {
		return
	}
	return x.(T)
}

type coreImpl struct{ s *server }

var _ core.Core = (*coreImpl)(nil)

func (c *coreImpl) Echo(id string, item core.Item) (out core.Item) {
	o := c.s.exec(nil, nil, "core", "Echo", id, id, item)
	return as[core.Item](o[0])
}
func (c *coreImpl) EchoPtr(id string, item *core.Item) (out *core.Item) {
	o := c.s.exec(nil, nil, "core", "EchoPtr", id, id, item)
	return as[*core.Item](o[0])
}
func (c *coreImpl) Scalars(id string, b bool, i int, i32 int32, i64 int64, u uint, u32 uint32, u64 uint64, f32 float32, f64 float64, s string) (rb bool, ri int, ri32 int32, ri64 int64, ru uint, ru32 uint32, ru64 uint64, rf32 float32, rf64 float64, rs string) {
	o := c.s.exec(nil, nil, "core", "Scalars", id, id, b, i, i32, i64, u, u32, u64, f32, f64, s)
	return as[bool](o[0]), as[int](o[1]), as[int32](o[2]), as[int64](o[3]), as[uint](o[4]), as[uint32](o[5]), as[uint64](o[6]), as[float32](o[7]), as[float64](o[8]), as[string](o[9])
}
func (c *coreImpl) Lists(id string, ss []string, ns []int64, items []core.Item, ptrs []*core.Item) ([]string, []int64, []core.Item, []*core.Item) {
	o := c.s.exec(nil, nil, "core", "Lists", id, id, ss, ns, items, ptrs)
	return as[[]string](o[0]), as[[]int64](o[1]), as[[]core.Item](o[2]), as[[]*core.Item](o[3])
}
func (c *coreImpl) Maps(id string, ms map[string]string, mn map[string]int64, mi map[string]core.Item, mp map[string]*other.Point) (map[string]string, map[string]int64, map[string]core.Item, map[string]*other.Point) {
	o := c.s.exec(nil, nil, "core", "Maps", id, id, ms, mn, mi, mp)
	return as[map[string]string](o[0]), as[map[string]int64](o[1]), as[map[string]core.Item](o[2]), as[map[string]*other.Point](o[3])
}
func (c *coreImpl) Named(id string, k core.Kind, l core.Level, ids core.IDs, t other.Tag) (core.Kind, core.Level, core.IDs, other.Tag) {
	o := c.s.exec(nil, nil, "core", "Named", id, id, k, l, ids, t)
	return as[core.Kind](o[0]), as[core.Level](o[1]), as[core.IDs](o[2]), as[other.Tag](o[3])
}
func (c *coreImpl) Cross(id string, p other.Point, b *other.Box) (rp other.Point, rb *other.Box) {
	o := c.s.exec(nil, nil, "core", "Cross", id, id, p, b)
	return as[other.Point](o[0]), as[*other.Box](o[1])
}
func (c *coreImpl) At(id string, s core.Stamp) (r core.Stamp) {
	o := c.s.exec(nil, nil, "core", "At", id, id, s)
	return as[core.Stamp](o[0])
}
func (c *coreImpl) Swap(id string, a string, b string) (x string, y string) {
	o := c.s.exec(nil, nil, "core", "Swap", id, id, a, b)
	return as[string](o[0]), as[string](o[1])
}
func (c *coreImpl) Sum(id string, xs []int64) int64 {
	o := c.s.exec(nil, nil, "core", "Sum", id, id, xs)
	return as[int64](o[0])
}
func (c *coreImpl) Nop() { c.s.exec(nil, nil, "core", "Nop", "") }
func (c *coreImpl) Pulse() string {
	return as[string](c.s.exec(nil, nil, "core", "Pulse", "")[0])
}
func (c *coreImpl) OneWay(id string, n int64) { c.s.exec(nil, nil, "core", "OneWay", id, id, n) }
func (c *coreImpl) Fail(id string, mode string) error {
	return as[error](c.s.exec(nil, nil, "core", "Fail", id, id, mode)[0])
}
func (c *coreImpl) Find(id string, key string) (item *core.Item, err error) {
	o := c.s.exec(nil, nil, "core", "Find", id, id, key)
	return as[*core.Item](o[0]), as[error](o[1])
}
func (c *coreImpl) FailScalar(id string, mode string) *core.ScalarErr {
	return as[*core.ScalarErr](c.s.exec(nil, nil, "core", "FailScalar", id, id, mode)[0])
}
func (c *coreImpl) FailStruct(id string, mode string) (n int64, e *core.StructErr) {
	o := c.s.exec(nil, nil, "core", "FailStruct", id, id, mode)
	return as[int64](o[0]), as[*core.StructErr](o[1])
}
func (c *coreImpl) FailValue(id string, mode string) (err error) {
	return as[error](c.s.exec(nil, nil, "core", "FailValue", id, id, mode)[0])
}
func (c *coreImpl) FailRich(id string, mode string) (e *core.RichErr, n int64) {
	o := c.s.exec(nil, nil, "core", "FailRich", id, id, mode)
	return as[*core.RichErr](o[0]), as[int64](o[1])
}
func (c *coreImpl) FailCode(id string, mode string) (n int64, e core.CodeErr) {
	o := c.s.exec(nil, nil, "core", "FailCode", id, id, mode)
	return as[int64](o[0]), as[core.CodeErr](o[1])
}
func (c *coreImpl) Session(w http.ResponseWriter, r *http.Request, id string, payload core.Item) (out core.Item, err error) {
	o := c.s.exec(w, r, "core", "Session", id, id, payload)
	return as[core.Item](o[0]), as[error](o[1])
}
func (c *coreImpl) Whoami(w http.ResponseWriter, r *http.Request) string {
	return as[string](c.s.exec(w, r, "core", "Whoami", "")[0])
}
func (c *coreImpl) Control(w http.ResponseWriter, r *http.Request, id string, status int, body string) (ok string) {
	o := c.s.exec(w, r, "core", "Control", id, id, status, body)
	return as[string](o[0])
}
func (c *coreImpl) Touch(w http.ResponseWriter, r *http.Request, id string) {
	c.s.exec(w, r, "core", "Touch", id, id)
}

type alphaImpl struct{ s *server }

var _ alt.Alpha = (*alphaImpl)(nil)

func (c *alphaImpl) Get(id string, key string) (row alt.Row, err error) {
	o := c.s.exec(nil, nil, "alpha", "Get", id, id, key)
	return as[alt.Row](o[0]), as[error](o[1])
}
func (c *alphaImpl) Put(id string, row alt.Row, tags []string) (n int64) {
	return as[int64](c.s.exec(nil, nil, "alpha", "Put", id, id, row, tags)[0])
}
func (c *alphaImpl) Ping() string { return as[string](c.s.exec(nil, nil, "alpha", "Ping", "")[0]) }

type wireImpl struct{ s *server }

var (
	_ wire.Wire  = (*wireImpl)(nil)
	_ wire.Wire2 = (*wire2Impl)(nil)
)

func (c *wireImpl) Echo(id string, d wire.Doc) (out wire.Doc) {
	return as[wire.Doc](c.s.exec(nil, nil, "wire", "Echo", id, id, d)[0])
}
func (c *wireImpl) EchoPtr(id string, d *wire.Doc) (out *wire.Doc) {
	return as[*wire.Doc](c.s.exec(nil, nil, "wire", "EchoPtr", id, id, d)[0])
}
func (c *wireImpl) Pair(id string, a string, b string) (x string, y string) {
	o := c.s.exec(nil, nil, "wire", "Pair", id, id, a, b)
	return as[string](o[0]), as[string](o[1])
}
func (c *wireImpl) Nums(id string, i int, i64 int64, u uint, f float64, b bool) (int, int64, uint, float64, bool) {
	o := c.s.exec(nil, nil, "wire", "Nums", id, id, i, i64, u, f, b)
	return as[int](o[0]), as[int64](o[1]), as[uint](o[2]), as[float64](o[3]), as[bool](o[4])
}
func (c *wireImpl) Bulk(id string, ds []wire.Doc, m map[string]other.Point) (rds []wire.Doc, rm map[string]other.Point) {
	o := c.s.exec(nil, nil, "wire", "Bulk", id, id, ds, m)
	return as[[]wire.Doc](o[0]), as[map[string]other.Point](o[1])
}
func (c *wireImpl) OneWay(id string, n int64) { c.s.exec(nil, nil, "wire", "OneWay", id, id, n) }
func (c *wireImpl) Pulse() string             { return as[string](c.s.exec(nil, nil, "wire", "Pulse", "")[0]) }
func (c *wireImpl) Nop()                      { c.s.exec(nil, nil, "wire", "Nop", "") }
func (c *wireImpl) Slow(id string, ms int64) string {
	return as[string](c.s.exec(nil, nil, "wire", "Slow", id, id, ms)[0])
}

func (c *wireImpl) Deep(id string, g [][]string, m map[string][]int64, k map[int]string, t map[other.Tag]int32) (rg [][]string, rm map[string][]int64, rk map[int]string, rt map[other.Tag]int32) {
	o := c.s.exec(nil, nil, "wire", "Deep", id, id, g, m, k, t)
	return as[[][]string](o[0]), as[map[string][]int64](o[1]), as[map[int]string](o[2]), as[map[other.Tag]int32](o[3])
}
func (c *wireImpl) Times(id string, t time.Time, d time.Duration, ts []time.Time) (time.Time, time.Duration, []time.Time) {
	o := c.s.exec(nil, nil, "wire", "Times", id, id, t, d, ts)
	return as[time.Time](o[0]), as[time.Duration](o[1]), as[[]time.Time](o[2])
}
func (c *wireImpl) Bytes(id string, b []byte, i8 int8, u16 uint16) ([]byte, int8, uint16) {
	o := c.s.exec(nil, nil, "wire", "Bytes", id, id, b, i8, u16)
	return as[[]byte](o[0]), as[int8](o[1]), as[uint16](o[2])
}
func (c *wireImpl) Sess(w http.ResponseWriter, r *http.Request, id string, d *wire.Doc) (out string, rd *wire.Doc) {
	o := c.s.exec(w, r, "wire", "Sess", id, id, d)
	return as[string](o[0]), as[*wire.Doc](o[1])
}

type wire2Impl struct{ s *server }

func (c *wire2Impl) Echo(id string, d wire.Doc) (out wire.Doc) {
	return as[wire.Doc](c.s.exec(nil, nil, "wire2", "Echo", id, id, d)[0])
}
func (c *wire2Impl) Note(id string, n int64) { c.s.exec(nil, nil, "wire2", "Note", id, id, n) }
func (c *wire2Impl) Pair(id string, a string, b string) (x string, y string) {
	o := c.s.exec(nil, nil, "wire2", "Pair", id, id, a, b)
	return as[string](o[0]), as[string](o[1])
}

type shapesImpl struct{ s *server }

var _ shapes.Shapes = (*shapesImpl)(nil)

func (c *shapesImpl) do(method, id string, args ...any) []any {
	return c.s.exec(nil, nil, "shapes", method, id, append([]any{id}, args...)...)
}
func (c *shapesImpl) Nest(id string, grid [][]string, deep map[string][]int64, mm map[string]map[string]shapes.Kind, lm []map[string]other.Point) ([][]string, map[string][]int64, map[string]map[string]shapes.Kind, []map[string]other.Point) {
	o := c.do("Nest", id, grid, deep, mm, lm)
	return as[[][]string](o[0]), as[map[string][]int64](o[1]), as[map[string]map[string]shapes.Kind](o[2]), as[[]map[string]other.Point](o[3])
}
func (c *shapesImpl) Keys(id string, byNum map[int]string, byKind map[shapes.Kind]shapes.Num, byTag map[other.Tag]*other.Box, all shapes.ByKind) (map[int]string, map[shapes.Kind]shapes.Num, map[other.Tag]*other.Box, shapes.ByKind) {
	o := c.do("Keys", id, byNum, byKind, byTag, all)
	return as[map[int]string](o[0]), as[map[shapes.Kind]shapes.Num](o[1]), as[map[other.Tag]*other.Box](o[2]), as[shapes.ByKind](o[3])
}
func (c *shapesImpl) Times(id string, t time.Time, p *time.Time, ts []time.Time, d time.Duration, m map[string]time.Time) (rt time.Time, rp *time.Time, rts []time.Time, rd time.Duration, rm map[string]time.Time) {
	o := c.do("Times", id, t, p, ts, d, m)
	return as[time.Time](o[0]), as[*time.Time](o[1]), as[[]time.Time](o[2]), as[time.Duration](o[3]), as[map[string]time.Time](o[4])
}
func (c *shapesImpl) Bytes(id string, b []byte, bb [][]byte) (rb []byte, rbb [][]byte) {
	o := c.do("Bytes", id, b, bb)
	return as[[]byte](o[0]), as[[][]byte](o[1])
}
func (c *shapesImpl) Shape(id string, s shapes.Shape) shapes.Shape {
	return as[shapes.Shape](c.do("Shape", id, s)[0])
}
func (c *shapesImpl) ShapePtr(id string, s *shapes.Shape) *shapes.Shape {
	return as[*shapes.Shape](c.do("ShapePtr", id, s)[0])
}
func (c *shapesImpl) Many(id string, l []*shapes.Shape, m map[string]*shapes.Shape) ([]*shapes.Shape, map[string]*shapes.Shape) {
	o := c.do("Many", id, l, m)
	return as[[]*shapes.Shape](o[0]), as[map[string]*shapes.Shape](o[1])
}
func (c *shapesImpl) Ptrs(id string, i *int, s *string, b *bool, f *float64, k *shapes.Kind, n *shapes.Num) (*int, *string, *bool, *float64, *shapes.Kind, *shapes.Num) {
	o := c.do("Ptrs", id, i, s, b, f, k, n)
	return as[*int](o[0]), as[*string](o[1]), as[*bool](o[2]), as[*float64](o[3]), as[*shapes.Kind](o[4]), as[*shapes.Num](o[5])
}
func (c *shapesImpl) Narrow(id string, i8 int8, i16 int16, u8 uint8, u16 uint16, s shapes.Small) (int8, int16, uint8, uint16, shapes.Small) {
	o := c.do("Narrow", id, i8, i16, u8, u16, s)
	return as[int8](o[0]), as[int16](o[1]), as[uint8](o[2]), as[uint16](o[3]), as[shapes.Small](o[4])
}
func (c *shapesImpl) Any(id string, v interface{}, l []interface{}, m map[string]interface{}) (interface{}, []interface{}, map[string]interface{}) {
	o := c.do("Any", id, v, l, m)
	return o[0], as[[]interface{}](o[1]), as[map[string]interface{}](o[2])
}
func (c *shapesImpl) Named(id string, g shapes.Grid, t shapes.Table) (g2 shapes.Grid, t2 shapes.Table) {
	o := c.do("Named", id, g, t)
	return as[shapes.Grid](o[0]), as[shapes.Table](o[1])
}
func (c *shapesImpl) Two(w http.ResponseWriter, r *http.Request, id string, a, b string, n, m int64) (x, y string, k, l int64) {
	o := c.s.exec(w, r, "shapes", "Two", id, id, a, b, n, m)
	return as[string](o[0]), as[string](o[1]), as[int64](o[2]), as[int64](o[3])
}
func (c *shapesImpl) Combo(id string, x shapes.Combo, p *shapes.Combo, m map[string]*shapes.Combo) (*shapes.Combo, []shapes.Combo) {
	o := c.do("Combo", id, x, p, m)
	return as[*shapes.Combo](o[0]), as[[]shapes.Combo](o[1])
}
func (c *shapesImpl) Rare(id string, x shapes.Rare, l []*shapes.Rare) (shapes.Rare, map[string]shapes.Rare) {
	o := c.do("Rare", id, x, l)
	return as[shapes.Rare](o[0]), as[map[string]shapes.Rare](o[1])
}
func (c *shapesImpl) Names(id string, u []uint8, r shapes.Raw, b byte, ps other.Points, ks shapes.Kinds, lv shapes.Level, ol other.Level, rate shapes.Rate, flag shapes.Flag) (ru []uint8, rr shapes.Raw, rb byte, rps other.Points, rks shapes.Kinds, rlv shapes.Level, rol *other.Level, rrate shapes.Rate, rflag shapes.Flag) {
	o := c.do("Names", id, u, r, b, ps, ks, lv, ol, rate, flag)
	return as[[]uint8](o[0]), as[shapes.Raw](o[1]), as[byte](o[2]), as[other.Points](o[3]), as[shapes.Kinds](o[4]), as[shapes.Level](o[5]), as[*other.Level](o[6]), as[shapes.Rate](o[7]), as[shapes.Flag](o[8])
}
func (c *shapesImpl) Choose(id string, x shapes.Choice, l []shapes.Choice, w shapes.Word) (shapes.Choice, map[string]shapes.Choice, shapes.Word) {
	o := c.do("Choose", id, x, l, w)
	return as[shapes.Choice](o[0]), as[map[string]shapes.Choice](o[1]), as[shapes.Word](o[2])
}
func (c *shapesImpl) Offer(id string, n int64) (x shapes.Choice, l []*shapes.Choice, w shapes.Word, m map[string]shapes.Word) {
	o := c.do("Offer", id, n)
	return as[shapes.Choice](o[0]), as[[]*shapes.Choice](o[1]), as[shapes.Word](o[2]), as[map[string]shapes.Word](o[3])
}
func (c *shapesImpl) Trouble(id string, mode string) (err error, n int64) {
	o := c.do("Trouble", id, mode)
	return as[error](o[0]), as[int64](o[1])
}

type twinImpl struct{ s *server }

var _ twin.Core = (*twinImpl)(nil)

func (c *twinImpl) Swap(id string, a, b string) (x, y string) {
	o := c.s.exec(nil, nil, "twin", "Swap", id, id, a, b)
	return as[string](o[0]), as[string](o[1])
}
func (c *twinImpl) Echo(id string, item twin.Item) (out twin.Item) {
	return as[twin.Item](c.s.exec(nil, nil, "twin", "Echo", id, id, item)[0])
}
func (c *twinImpl) Pulse() string { return as[string](c.s.exec(nil, nil, "twin", "Pulse", "")[0]) }
func (c *twinImpl) Fail(id string, mode string) error {
	return as[error](c.s.exec(nil, nil, "twin", "Fail", id, id, mode)[0])
}
func (c *twinImpl) Session(w http.ResponseWriter, r *http.Request, id string, payload *twin.Item) (out *twin.Item, err error) {
	o := c.s.exec(w, r, "twin", "Session", id, id, payload)
	return as[*twin.Item](o[0]), as[error](o[1])
}
