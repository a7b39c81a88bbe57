// Package metadata models the generated sqlboiler package by the SQL it would issue.
package metadata

import (
	"context"
	"database/sql"
	"strings"
	"time"

	"github.com/volatiletech/sqlboiler/v4/boil"
	"github.com/volatiletech/sqlboiler/v4/queries/qm"
)

var TableNames = struct {
	GorpMigrations string
	Headers        string
}{
	GorpMigrations: "gorp_migrations",
	Headers:        "headers",
}

type Header struct {
	Record          int64     `boil:"record" json:"record" toml:"record" yaml:"record"`
	Lastknownrecord int64     `boil:"lastknownrecord" json:"lastknownrecord" toml:"lastknownrecord" yaml:"lastknownrecord"`
	Block           int64     `boil:"block" json:"block" toml:"block" yaml:"block"`
	Lastknownblock  int64     `boil:"lastknownblock" json:"lastknownblock" toml:"lastknownblock" yaml:"lastknownblock"`
	Deleted         int64     `boil:"deleted" json:"deleted" toml:"deleted" yaml:"deleted"`
	Typeflag        int64     `boil:"typeflag" json:"typeflag" toml:"typeflag" yaml:"typeflag"`
	Name            string    `boil:"name" json:"name" toml:"name" yaml:"name"`
	Linkname        string    `boil:"linkname" json:"linkname" toml:"linkname" yaml:"linkname"`
	Size            int64     `boil:"size" json:"size" toml:"size" yaml:"size"`
	Mode            int64     `boil:"mode" json:"mode" toml:"mode" yaml:"mode"`
	UID             int64     `boil:"uid" json:"uid" toml:"uid" yaml:"uid"`
	Gid             int64     `boil:"gid" json:"gid" toml:"gid" yaml:"gid"`
	Uname           string    `boil:"uname" json:"uname" toml:"uname" yaml:"uname"`
	Gname           string    `boil:"gname" json:"gname" toml:"gname" yaml:"gname"`
	Modtime         time.Time `boil:"modtime" json:"modtime" toml:"modtime" yaml:"modtime"`
	Accesstime      time.Time `boil:"accesstime" json:"accesstime" toml:"accesstime" yaml:"accesstime"`
	Changetime      time.Time `boil:"changetime" json:"changetime" toml:"changetime" yaml:"changetime"`
	Devmajor        int64     `boil:"devmajor" json:"devmajor" toml:"devmajor" yaml:"devmajor"`
	Devminor        int64     `boil:"devminor" json:"devminor" toml:"devminor" yaml:"devminor"`
	Paxrecords      string    `boil:"paxrecords" json:"paxrecords" toml:"paxrecords" yaml:"paxrecords"`
	Format          int64     `boil:"format" json:"format" toml:"format" yaml:"format"`

	R *headerR `boil:"-" json:"-" toml:"-" yaml:"-"`
	L headerL  `boil:"-" json:"-" toml:"-" yaml:"-"`
}

var HeaderColumns = struct {
	Record          string
	Lastknownrecord string
	Block           string
	Lastknownblock  string
	Deleted         string
	Typeflag        string
	Name            string
	Linkname        string
	Size            string
	Mode            string
	UID             string
	Gid             string
	Uname           string
	Gname           string
	Modtime         string
	Accesstime      string
	Changetime      string
	Devmajor        string
	Devminor        string
	Paxrecords      string
	Format          string
}{
	Record:          "record",
	Lastknownrecord: "lastknownrecord",
	Block:           "block",
	Lastknownblock:  "lastknownblock",
	Deleted:         "deleted",
	Typeflag:        "typeflag",
	Name:            "name",
	Linkname:        "linkname",
	Size:            "size",
	Mode:            "mode",
	UID:             "uid",
	Gid:             "gid",
	Uname:           "uname",
	Gname:           "gname",
	Modtime:         "modtime",
	Accesstime:      "accesstime",
	Changetime:      "changetime",
	Devmajor:        "devmajor",
	Devminor:        "devminor",
	Paxrecords:      "paxrecords",
	Format:          "format",
}

type headerR struct{}
type headerL struct{}

type HeaderSlice []*Header

type headerQuery struct {
	q qm.Q
}

func Headers(mods ...qm.QueryMod) headerQuery {
	var h headerQuery
	for _, m := range mods {
		m.Apply(&h.q)
	}
	return h
}

var allCols = []string{"record", "lastknownrecord", "block", "lastknownblock", "deleted", "typeflag", "name", "linkname", "size", "mode", "uid", "gid", "uname", "gname", "modtime", "accesstime", "changetime", "devmajor", "devminor", "paxrecords", "format"}

func (q headerQuery) sel(what string) string { return "select " + what + " from headers" + q.q.Tail() }

func (q headerQuery) cols() string {
	if len(q.q.Cols) > 0 {
		return strings.Join(q.q.Cols, ", ")
	}
	return strings.Join(allCols, ", ")
}

func (q headerQuery) One(ctx context.Context, exec boil.ContextExecutor) (*Header, error) {
	o := &Header{}
	q.q.Lim = 1
	if _, err := exec.Bind(q.sel(q.cols()), q.q.Args, o); err != nil {
		return nil, err
	}
	return o, nil
}

func (q headerQuery) All(ctx context.Context, exec boil.ContextExecutor) (HeaderSlice, error) {
	var o []*Header
	if _, err := exec.Bind(q.sel(q.cols()), q.q.Args, &o); err != nil {
		return nil, err
	}
	return o, nil
}

type cnt struct {
	N int64 `boil:"n"`
}

func (q headerQuery) Count(ctx context.Context, exec boil.ContextExecutor) (int64, error) {
	var c cnt
	if _, err := exec.Bind(q.sel("count(*) as n"), q.q.Args, &c); err != nil {
		return 0, err
	}
	return c.N, nil
}

func (q headerQuery) Exists(ctx context.Context, exec boil.ContextExecutor) (bool, error) {
	n, err := q.Count(ctx, exec)
	return n > 0, err
}

func (q headerQuery) DeleteAll(ctx context.Context, exec boil.ContextExecutor) (int64, error) {
	return exec.ExecN("delete from headers"+q.q.Tail(), q.q.Args)
}

type M map[string]interface{}

func (q headerQuery) UpdateAll(ctx context.Context, exec boil.ContextExecutor, cols M) (int64, error) {
	s := "update headers set "
	var args []interface{}
	first := true
	for k, v := range cols {
		if !first {
			s += ", "
		}
		first = false
		s += k + " = ?"
		args = append(args, v)
	}
	return exec.ExecN(s+q.q.Tail(), append(args, q.q.Args...))
}

func FindHeader(ctx context.Context, exec boil.ContextExecutor, name string, linkname string, selectCols ...string) (*Header, error) {
	return Headers(qm.Where("name = ?", name), qm.Where("linkname = ?", linkname)).One(ctx, exec)
}

func HeaderExists(ctx context.Context, exec boil.ContextExecutor, name string, linkname string) (bool, error) {
	return Headers(qm.Where("name = ?", name), qm.Where("linkname = ?", linkname)).Exists(ctx, exec)
}

func (o *Header) val(c string) interface{} {
	switch c {
	case "record":
		return o.Record
	case "lastknownrecord":
		return o.Lastknownrecord
	case "block":
		return o.Block
	case "lastknownblock":
		return o.Lastknownblock
	case "deleted":
		return o.Deleted
	case "typeflag":
		return o.Typeflag
	case "name":
		return o.Name
	case "linkname":
		return o.Linkname
	case "size":
		return o.Size
	case "mode":
		return o.Mode
	case "uid":
		return o.UID
	case "gid":
		return o.Gid
	case "uname":
		return o.Uname
	case "gname":
		return o.Gname
	case "modtime":
		return o.Modtime
	case "accesstime":
		return o.Accesstime
	case "changetime":
		return o.Changetime
	case "devmajor":
		return o.Devmajor
	case "devminor":
		return o.Devminor
	case "paxrecords":
		return o.Paxrecords
	}
	return o.Format
}

func (o *Header) Insert(ctx context.Context, exec boil.ContextExecutor, columns boil.Columns) error {
	var cs, qs []string
	var args []interface{}
	for _, c := range allCols {
		if columns.Keep(c) {
			cs = append(cs, c)
			qs = append(qs, "?")
			args = append(args, o.val(c))
		}
	}
	_, err := exec.ExecN("insert into headers ("+strings.Join(cs, ", ")+") values ("+strings.Join(qs, ", ")+")", args)
	return err
}

func (o *Header) Update(ctx context.Context, exec boil.ContextExecutor, columns boil.Columns) (int64, error) {
	var cs []string
	var args []interface{}
	for _, c := range allCols {
		if c != "name" && c != "linkname" && columns.Keep(c) {
			cs = append(cs, c+" = ?")
			args = append(args, o.val(c))
		}
	}
	args = append(args, o.Name, o.Linkname)
	return exec.ExecN("update headers set "+strings.Join(cs, ", ")+" where name = ? and linkname = ?", args)
}

func (o *Header) Delete(ctx context.Context, exec boil.ContextExecutor) (int64, error) {
	return exec.ExecN("delete from headers where name = ? and linkname = ?", []interface{}{o.Name, o.Linkname})
}

func (o *Header) Reload(ctx context.Context, exec boil.ContextExecutor) error {
	r, err := FindHeader(ctx, exec, o.Name, o.Linkname)
	if err != nil {
		return err
	}
	*o = *r
	return nil
}

func (o *Header) Upsert(ctx context.Context, exec boil.ContextExecutor, updateOnConflict bool, conflictColumns []string, updateColumns, insertColumns boil.Columns) error {
	ok, err := HeaderExists(ctx, exec, o.Name, o.Linkname)
	if err != nil {
		return err
	}
	if !ok {
		return o.Insert(ctx, exec, insertColumns)
	}
	if updateOnConflict {
		_, err = o.Update(ctx, exec, updateColumns)
	}
	return err
}

var _ = sql.ErrNoRows
var _ time.Time
