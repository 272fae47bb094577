// Package alt has two services in one package with overlapping method names,
// one of them a concrete struct type.
package alt

import (
	"net/http"
	"sync"

	"gotsrpcsim/svc/core"
)

type Row struct {
	ID   string     `json:"id"`
	Cols []string   `json:"cols"`
	Item *core.Item `json:"item"`
}

// Alpha and Beta deliberately share method names.
type Alpha interface {
	Get(id string, key string) (row Row, err error)
	Put(id string, row Row, tags []string) (n int64)
	Ping() string
}

// Hooks lets the simulator supply the behaviour of the concrete service.
type Hooks struct {
	Mu   sync.Mutex
	Get  func(id, key string) (Row, error)
	Put  func(id string, row Row, tags []string) int64
	Sess func(w http.ResponseWriter, r *http.Request, id string, row *Row) (*Row, error)
	Ping func() string
}

var H Hooks

type Beta struct{ Name string }

func (b *Beta) Get(id string, key string) (row Row, err error)  { return H.Get(id, key) }
func (b *Beta) Put(id string, row Row, tags []string) (n int64) { return H.Put(id, row, tags) }
func (b *Beta) Ping() string                                    { return H.Ping() }
func (b *Beta) Sess(w http.ResponseWriter, r *http.Request, id string, row *Row) (out *Row, err error) {
	return H.Sess(w, r, id, row)
}
