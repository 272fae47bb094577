// Package core is the main service definition driven by the simulator. The
// proxies and clients next to it are generated by /repo's generator at check
// time, never committed.
package core

import (
	"net/http"
	"time"

	"gotsrpcsim/svc/other"
)

type (
	Kind  string
	Level int
	IDs   []string
)

const (
	KindA Kind = "a"
	KindB Kind = "b"

	LevelOne Level = 1
	LevelTwo Level = 2
)

type Item struct {
	ID     string            `json:"id"`
	N      int64             `json:"n"`
	U      uint32            `json:"u"`
	F      float64           `json:"f"`
	Flag   bool              `json:"flag"`
	Kind   Kind              `json:"kind"`
	Level  Level             `json:"level"`
	Tags   []string          `json:"tags"`
	Attrs  map[string]string `json:"attrs"`
	Counts map[string]int64  `json:"counts"`
	Kids   []Item            `json:"kids"`
	Next   *Item             `json:"next"`
	Opt    *string           `json:"opt,omitempty"`
	Loc    other.Point       `json:"loc"`
	Box    *other.Box        `json:"box"`
}

type Stamp struct {
	At   time.Time `json:"at"`
	Name string    `json:"name"`
}

// error kinds a service can hand out ------------------------------------

type ScalarErr string

func (e *ScalarErr) Error() string { return string(*e) }

type StructErr struct {
	Message string            `json:"message"`
	Code    int               `json:"code"`
	Labels  map[string]string `json:"labels"`
	Parts   []string          `json:"parts"`
}

func (e *StructErr) Error() string  { return e.Message }
func (e *StructErr) ErrorCode() int { return e.Code }

type ValueErr struct {
	Message string
	Detail  string
}

func (e ValueErr) Error() string { return e.Message }

// EmptyErr carries nothing but its type.
type EmptyErr struct{}

func (EmptyErr) Error() string { return "nothing there" }

// CodeErr is an error by value, zero included.
type CodeErr int32

func (c CodeErr) Error() string  { return [...]string{"code zero", "code one", "code two"}[uint32(c)%3] }
func (c CodeErr) ErrorCode() int { return int(c) }

type ErrBase struct {
	Ref string `json:"ref_no"`
}

// RichErr has names and kinds of fields which only the encoding's rules restore.
type RichErr struct {
	ErrBase
	Text  string              `json:"message_text"`
	When  time.Time           `json:"when"`
	Raw   []byte              `json:"raw"`
	Small uint8               `json:"small,omitempty"`
	Big   uint64              `json:"big"`
	Ratio float32             `json:"ratio"`
	Where *other.Point        `json:"where_at,omitempty"`
	Boxes []other.Box         `json:"boxes"`
	Tags  map[other.Tag]*Item `json:"tags_by"`
	Dur   time.Duration
	Pair  [2]int64
	Level Level
}

func (e *RichErr) Error() string { return "rich: " + e.Text }

// CountErr has a map whose keys are not strings.
type CountErr struct {
	Text   string
	Counts map[int]string
}

func (e *CountErr) Error() string { return "counted: " + e.Text }

// Transparent adds nothing to the text of what it wraps.
type Transparent struct{ Inner *StructErr }

func (e Transparent) Error() string { return e.Inner.Error() }
func (e Transparent) Unwrap() error { return e.Inner }

// Core is an interface service: session and plain methods, every kind of value.
type Core interface {
	// identity on every argument, in order
	Echo(id string, item Item) (out Item)
	EchoPtr(id string, item *Item) (out *Item)
	Scalars(id string, b bool, i int, i32 int32, i64 int64, u uint, u32 uint32, u64 uint64, f32 float32, f64 float64, s string) (rb bool, ri int, ri32 int32, ri64 int64, ru uint, ru32 uint32, ru64 uint64, rf32 float32, rf64 float64, rs string)
	Lists(id string, ss []string, ns []int64, items []Item, ptrs []*Item) ([]string, []int64, []Item, []*Item)
	Maps(id string, ms map[string]string, mn map[string]int64, mi map[string]Item, mp map[string]*other.Point) (map[string]string, map[string]int64, map[string]Item, map[string]*other.Point)
	Named(id string, k Kind, l Level, ids IDs, t other.Tag) (Kind, Level, IDs, other.Tag)
	Cross(id string, p other.Point, b *other.Box) (rp other.Point, rb *other.Box)
	At(id string, s Stamp) (r Stamp)
	Swap(id string, a string, b string) (x string, y string)
	Sum(id string, xs []int64) int64
	Nop()
	Pulse() string
	OneWay(id string, n int64)
	// errors
	Fail(id string, mode string) error
	Find(id string, key string) (item *Item, err error)
	FailScalar(id string, mode string) *ScalarErr
	FailStruct(id string, mode string) (n int64, e *StructErr)
	FailValue(id string, mode string) (err error)
	FailRich(id string, mode string) (e *RichErr, n int64)
	FailCode(id string, mode string) (n int64, e CodeErr)
	// sessions
	Session(w http.ResponseWriter, r *http.Request, id string, payload Item) (out Item, err error)
	Whoami(w http.ResponseWriter, r *http.Request) string
	Control(w http.ResponseWriter, r *http.Request, id string, status int, body string) (ok string)
	Touch(w http.ResponseWriter, r *http.Request, id string)
}
