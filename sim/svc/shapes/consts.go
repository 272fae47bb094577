package shapes

// constants of types which other files declare
const KindZ Kind = "z w"

const (
	Plain       Kind  = "plain"
	KindSnake_1 Kind  = "snake"
	LevelLevel  Level = 300
	kindHidden  Kind  = ""
)

var _ = kindHidden

const LevelVery Level = 4000

// names and values which are written differently in TypeScript
const (
	Level1     Level = 1
	Level2     Level = 2
	LevelBelow Level = -3
	LevelOct   Level = 017
	LevelHex   Level = 0x1f
	LevelRune  Level = 'x'
	LevelParen Level = (7)
	Very       Level = 5 // LevelVery is another one
	KindRaw    Kind  = `raw \ "text"`
	KindBell   Kind  = "\a\x41\101\U0001F600\\"
	Kind3D     Kind  = "3d"
)
