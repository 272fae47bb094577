// Package core has the name of another package, and a service and types of the
// same names as that one.
package core

import "net/http"

type Core interface {
	Swap(id string, a, b string) (x, y string)
	Echo(id string, item Item) (out Item)
	Pulse() string
	Fail(id string, mode string) error
	Session(w http.ResponseWriter, r *http.Request, id string, payload *Item) (out *Item, err error)
}

// Item shares names of fields with the other one, not their types.
type Item struct {
	ID   int64             `json:"id"`
	N    string            `json:"n"`
	Tags map[string]string `json:"tags"`
	Kids []string          `json:"kids"`
	Next *Item             `json:"next"`
}

type StructErr struct {
	Message string            `json:"message"`
	Code    int               `json:"code"`
	Labels  map[string]string `json:"labels"`
	Parts   []string          `json:"parts"`
}

func (e *StructErr) Error() string { return e.Message }

type ValueErr struct {
	Message string
	Detail  string
}

func (e ValueErr) Error() string { return e.Message }
