package kvx

import (
	"errors"
	"sync/atomic"

	"github.com/zhiqiangxu/mondis"
)

// ErrInjected is the failure the wrappers inject.
var ErrInjected = errors.New("injected failure")

// Call is one operation of the code under test on its store.
type Call struct {
	Op    string // begin get set delete exists scan commit
	After bool   // false: about to run; true: has run, with result Err
	Txn   int64  // 0: outside a transaction
	Upd   bool
	Key   []byte
	Value []byte // of a set
	Err   error
}

// Wrap is a store that shows every operation to Hook before and after it. A non-nil error
// from Hook becomes the result of the operation (which does not run if it came before).
type Wrap struct {
	mondis.KVDB
	Hook func(Call) error
}

var txnIDs int64

type wrapTxn struct {
	mondis.ProviderTxn
	w   *Wrap
	id  int64
	upd bool
}

func (w *Wrap) around(c Call, f func() error) error {
	if w.Hook == nil {
		return f()
	}
	if err := w.Hook(c); err != nil {
		return err
	}
	c.Err = f()
	c.After = true
	if err := w.Hook(c); err != nil {
		return err
	}
	return c.Err
}

// NewTransaction implements mondis.KVDB.
func (w *Wrap) NewTransaction(upd bool) mondis.ProviderTxn {
	t := &wrapTxn{w: w, id: atomic.AddInt64(&txnIDs, 1), upd: upd}
	w.around(Call{Op: "begin", Txn: t.id, Upd: upd}, func() error { t.ProviderTxn = w.KVDB.NewTransaction(upd); return nil })
	if t.ProviderTxn == nil { // a begin cannot fail
		t.ProviderTxn = w.KVDB.NewTransaction(upd)
	}
	return t
}

type kvop interface {
	mondis.ProviderKVOP
}

func (w *Wrap) get(c Call, o kvop, k []byte) (v []byte, m mondis.VMetaResp, err error) {
	c.Op, c.Key = "get", k
	err = w.around(c, func() (e error) { v, m, e = o.Get(k); return })
	return
}

func (w *Wrap) exists(c Call, o kvop, k []byte) (b bool, err error) {
	c.Op, c.Key = "exists", k
	err = w.around(c, func() (e error) { b, e = o.Exists(k); return })
	return
}

// Get implements mondis.KVDB.
func (w *Wrap) Get(k []byte) ([]byte, mondis.VMetaResp, error) { return w.get(Call{}, w.KVDB, k) }

// Exists implements mondis.KVDB.
func (w *Wrap) Exists(k []byte) (bool, error) { return w.exists(Call{}, w.KVDB, k) }

// Set implements mondis.KVDB.
func (w *Wrap) Set(k, v []byte, m *mondis.VMetaReq) error {
	return w.around(Call{Op: "set", Value: v, Key: k}, func() error { return w.KVDB.Set(k, v, m) })
}

// Delete implements mondis.KVDB.
func (w *Wrap) Delete(k []byte) error {
	return w.around(Call{Op: "delete", Key: k}, func() error { return w.KVDB.Delete(k) })
}

// Scan implements mondis.KVDB.
func (w *Wrap) Scan(o mondis.ProviderScanOption, fn func(k, v []byte, m mondis.VMetaResp) bool) error {
	return w.around(Call{Op: "scan", Key: o.Prefix}, func() error { return w.KVDB.Scan(o, fn) })
}

func (t *wrapTxn) c() Call { return Call{Txn: t.id, Upd: t.upd} }

func (t *wrapTxn) Get(k []byte) ([]byte, mondis.VMetaResp, error) {
	return t.w.get(t.c(), t.ProviderTxn, k)
}
func (t *wrapTxn) Exists(k []byte) (bool, error) { return t.w.exists(t.c(), t.ProviderTxn, k) }
func (t *wrapTxn) Set(k, v []byte, m *mondis.VMetaReq) error {
	c := t.c()
	c.Op, c.Key, c.Value = "set", k, v
	return t.w.around(c, func() error { return t.ProviderTxn.Set(k, v, m) })
}
func (t *wrapTxn) Delete(k []byte) error {
	c := t.c()
	c.Op, c.Key = "delete", k
	return t.w.around(c, func() error { return t.ProviderTxn.Delete(k) })
}
func (t *wrapTxn) Scan(o mondis.ProviderScanOption, fn func(k, v []byte, m mondis.VMetaResp) bool) error {
	c := t.c()
	c.Op, c.Key = "scan", o.Prefix
	return t.w.around(c, func() error { return t.ProviderTxn.Scan(o, fn) })
}
func (t *wrapTxn) Commit() error {
	c := t.c()
	c.Op = "commit"
	return t.w.around(c, func() error { return t.ProviderTxn.Commit() })
}
