// Package other holds types used across package borders.
package other

type Point struct {
	X int64  `json:"x"`
	Y int64  `json:"y"`
	L string `json:"l"`
}

type Tag string

type Box struct {
	Points []Point          `json:"points"`
	ByTag  map[string]Point `json:"byTag"`
	Tag    Tag              `json:"tag"`
}

type (
	Points []Point
	Tags   []Tag
	Meta   struct {
		MetaBy  *string        `json:"metaBy"`
		MetaAt  []Point        `json:"metaAt,omitempty"`
		MetaTag map[Tag]string `json:"metaTag"`
	}
	ByName map[string]*Point
	Level  int64
)

const (
	LevelOff Level = 10
	LevelOn  Level = 11
)
