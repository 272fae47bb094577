// Package shapes has the kinds of values and signatures the other services lack.
package shapes

import (
	"net/http"
	"time"

	"gotsrpcsim/svc/other"
)

type (
	Kind   string
	Num    int
	Grid   [][]int64
	Table  map[string]map[string]int64
	ByKind map[Kind]Num
	Base   struct {
		BaseID string `json:"baseId"`
		Rev    int    `json:"rev"`
	}
	Mixin struct {
		Owner string   `json:"owner"`
		Marks []string `json:"marks"`
	}
)

const (
	KindX Kind = "x"
	KindY Kind = "y"
)

// Small has the narrow numbers.
type Small struct {
	I8  int8    `json:"i8"`
	I16 int16   `json:"i16"`
	U8  uint8   `json:"u8"`
	U16 uint16  `json:"u16"`
	F32 float32 `json:"f32"`
}

// Shape has embedded structs, renamed, optional and hidden fields.
type Shape struct {
	Base
	Mixin  `json:",inline"`
	Name   string `json:"-"`
	Title  string `json:"Title-of_it,omitempty"`
	hidden int
	Small  Small                       `json:"small"`
	P      *int64                      `json:"p,omitempty"`
	PB     *bool                       `json:"pb"`
	PF     *float64                    `json:"pf,omitempty"`
	PS     *string                     `json:"ps"`
	PK     *Kind                       `json:"pk"`
	When   time.Time                   `json:"when"`
	WhenP  *time.Time                  `json:"whenP,omitempty"`
	Whens  []time.Time                 `json:"whens"`
	Dur    time.Duration               `json:"dur"`
	Data   []byte                      `json:"data,omitempty"`
	Grid   [][]float64                 `json:"grid"`
	Deep   map[string]map[string][]Num `json:"deep"`
	ByNum  map[int]string              `json:"byNum"`
	ByKind map[Kind]*Small             `json:"byKind"`
	List   []map[string]string         `json:"list"`
	G      Grid                        `json:"g"`
	T      Table                       `json:"t"`
	Inner  struct {
		A int    `json:"a"`
		B string `json:"b"`
	} `json:"inner"`
	Next *Shape                 `json:"next,omitempty"`
	Pts  []*other.Point         `json:"pts"`
	Any  interface{}            `json:"any"`
	Bag  map[string]interface{} `json:"bag,omitempty"`
	Row  []interface{}          `json:"row,omitempty"`
}

func (s Shape) Hidden() int { return s.hidden + len(Combo{}.plain) }

type (
	Raw   []byte
	Kinds []Kind
	Level int
	Rate  float64
	Names map[string]string
	Flag  bool
	// Rare has the names and types which are seldom seen.
	Rare struct {
		U         []uint8  `json:"u"`
		R         Raw      `json:"r"`
		RP        *Raw     `json:"rp,omitempty"`
		B         byte     `json:"b"`
		BP        *byte    `json:"bp"`
		Dash      string   `json:"dash-ed"`
		Dot       int64    `json:"dot.ted,omitempty"`
		Slash     bool     `json:"a/b"`
		Digit     []string `json:"1st"`
		Dollar    string   `json:"$ref"`
		One, More int64
		Untagged  string
		Opt       Kinds                         `json:",omitempty"`
		Ks        Kinds                         `json:"ks"`
		Ps        other.Points                  `json:"ps"`
		PsP       *other.Points                 `json:"psp,omitempty"`
		By        other.ByName                  `json:"by"`
		Lv        Level                         `json:"lv"`
		Lvs       []Level                       `json:"lvs"`
		LvP       *Level                        `json:"lvp"`
		OL        other.Level                   `json:"ol"`
		OLs       map[string]other.Level        `json:"ols,omitempty"`
		ByLv      map[Level]string              `json:"byLv"`
		ByOL      map[other.Level][]other.Point `json:"byOL"`
		Rate      Rate                          `json:"rate,omitempty"`
		Names     Names                         `json:"names"`
		NamesO    Names                         `json:"namesO,omitempty"`
		Flag      Flag                          `json:"flag"`
		FlagP     *Flag                         `json:"flagP,omitempty"`
		In        struct {
			Ps *other.Point `json:"ps"`
			Ks []Kinds      `json:"ks,omitempty"`
			In struct {
				Q *int64 `json:"q,omitempty"`
			} `json:"in"`
		} `json:"in"`
		Mx    []map[string][]*other.Box  `json:"mx"`
		Self  []Rare                     `json:"self,omitempty"`
		Lists map[string][]string        `json:"lists,omitempty"`
		Maps  map[Kind]map[string]*int64 `json:"maps,omitempty"`
		LL    [][]other.Points           `json:"ll,omitempty"`
		Ptrs  map[string]*other.Point    `json:"ptrs,omitempty"`
		PL    []*Names                   `json:"pl,omitempty"`
	}
	Extra struct {
		Note  string   `json:"note"`
		Since int64    `json:"since,omitempty"`
		Refs  []string `json:"refs"`
	}
	// Combo is made of others.
	Combo struct {
		Mixin      `json:",inline"`
		*Extra     `json:",inline"`
		other.Meta `json:",inline"`
		Parts      []struct {
			A int64        `json:"a"`
			P *other.Point `json:"p,omitempty"`
		} `json:"parts"`
		Opt *struct {
			B []string `json:"b"`
		} `json:"opt,omitempty"`
		Must *struct {
			C Kind `json:"c"`
		} `json:"must"`
		Reg map[string]struct {
			D map[string]Num `json:"d,omitempty"`
			E *Kind          `json:"e"`
		} `json:"reg"`
		Arr    [3]int64   `json:"arr"`
		Mat    [2][]Kind  `json:"mat"`
		Secret string     `json:"-"`
		Tags   other.Tags `json:"tags,omitempty"`
		Tag    *other.Tag `json:"tag"`
		plain  []string
	}
)

const (
	LevelLow  Level = 1
	LevelHigh Level = 20
)

// Choice is one of its fields.
type (
	ChoiceA struct {
		Kind  string `json:"kind" gotsrpc:"type:'ChoiceA'"`
		Value string `json:"value"`
		N     int64  `json:"n"`
	}
	ChoiceB struct {
		Kind  string            `json:"kind" gotsrpc:"type:'ChoiceB'"`
		Boxes []other.Point     `json:"boxes"`
		Tags  map[string]string `json:"tags"`
	}
	Choice struct {
		A *ChoiceA `json:"a,omitempty" gotsrpc:"union"`
		B *ChoiceB `json:"b,omitempty" gotsrpc:"union"`
	}
	WordA string
	WordB string
	Word  struct {
		A *WordA `json:"a,omitempty" gotsrpc:"union"`
		B *WordB `json:"b,omitempty" gotsrpc:"union"`
	}
)

const (
	WordAOne   WordA = "one"
	WordATwo   WordA = "two"
	WordBThree WordB = "three"
)

// Shapes is served over TSRPC.
type Shapes interface {
	Nest(id string, grid [][]string, deep map[string][]int64, mm map[string]map[string]Kind, lm []map[string]other.Point) ([][]string, map[string][]int64, map[string]map[string]Kind, []map[string]other.Point)
	Keys(id string, byNum map[int]string, byKind map[Kind]Num, byTag map[other.Tag]*other.Box, all ByKind) (map[int]string, map[Kind]Num, map[other.Tag]*other.Box, ByKind)
	Times(id string, t time.Time, p *time.Time, ts []time.Time, d time.Duration, m map[string]time.Time) (rt time.Time, rp *time.Time, rts []time.Time, rd time.Duration, rm map[string]time.Time)
	Bytes(id string, b []byte, bb [][]byte) (rb []byte, rbb [][]byte)
	Shape(id string, s Shape) Shape
	ShapePtr(id string, s *Shape) *Shape
	Many(id string, l []*Shape, m map[string]*Shape) ([]*Shape, map[string]*Shape)
	Ptrs(id string, i *int, s *string, b *bool, f *float64, k *Kind, n *Num) (*int, *string, *bool, *float64, *Kind, *Num)
	Narrow(id string, i8 int8, i16 int16, u8 uint8, u16 uint16, s Small) (int8, int16, uint8, uint16, Small)
	Any(id string, v interface{}, l []interface{}, m map[string]interface{}) (interface{}, []interface{}, map[string]interface{})
	Named(id string, g Grid, t Table) (g2 Grid, t2 Table)
	Two(w http.ResponseWriter, r *http.Request, id string, a, b string, n, m int64) (x, y string, k, l int64)
	Choose(id string, c Choice, l []Choice, w Word) (Choice, map[string]Choice, Word)
	Offer(id string, n int64) (c Choice, l []*Choice, w Word, m map[string]Word)
	Combo(id string, c Combo, p *Combo, m map[string]*Combo) (*Combo, []Combo)
	Rare(id string, x Rare, l []*Rare) (Rare, map[string]Rare)
	Names(id string, u []uint8, r Raw, b byte, ps other.Points, ks Kinds, lv Level, ol other.Level, rate Rate, flag Flag) (ru []uint8, rr Raw, rb byte, rps other.Points, rks Kinds, rlv Level, rol *other.Level, rrate Rate, rflag Flag)
	Trouble(id string, mode string) (err error, n int64)
}
