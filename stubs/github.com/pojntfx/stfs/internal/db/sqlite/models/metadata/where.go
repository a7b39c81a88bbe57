package metadata

import (
	"context"
	"fmt"
	"time"

	"github.com/volatiletech/sqlboiler/v4/boil"
	"github.com/volatiletech/sqlboiler/v4/queries/qm"
	"github.com/volatiletech/sqlboiler/v4/queries/qmhelper"
)

var HeaderTableColumns = struct {
	Record          string
	Lastknownrecord string
	Block           string
	Lastknownblock  string
	Deleted         string
	Typeflag        string
	Name            string
	Linkname        string
	Size            string
	Mode            string
	UID             string
	Gid             string
	Uname           string
	Gname           string
	Modtime         string
	Accesstime      string
	Changetime      string
	Devmajor        string
	Devminor        string
	Paxrecords      string
	Format          string
}{
	Record:          "headers.record",
	Lastknownrecord: "headers.lastknownrecord",
	Block:           "headers.block",
	Lastknownblock:  "headers.lastknownblock",
	Deleted:         "headers.deleted",
	Typeflag:        "headers.typeflag",
	Name:            "headers.name",
	Linkname:        "headers.linkname",
	Size:            "headers.size",
	Mode:            "headers.mode",
	UID:             "headers.uid",
	Gid:             "headers.gid",
	Uname:           "headers.uname",
	Gname:           "headers.gname",
	Modtime:         "headers.modtime",
	Accesstime:      "headers.accesstime",
	Changetime:      "headers.changetime",
	Devmajor:        "headers.devmajor",
	Devminor:        "headers.devminor",
	Paxrecords:      "headers.paxrecords",
	Format:          "headers.format",
}

type whereHelperstring struct{ field string }

func (w whereHelperstring) EQ(x string) qm.QueryMod    { return qmhelper.Where(w.field, qmhelper.EQ, x) }
func (w whereHelperstring) NEQ(x string) qm.QueryMod   { return qmhelper.Where(w.field, qmhelper.NEQ, x) }
func (w whereHelperstring) LT(x string) qm.QueryMod    { return qmhelper.Where(w.field, qmhelper.LT, x) }
func (w whereHelperstring) LTE(x string) qm.QueryMod   { return qmhelper.Where(w.field, qmhelper.LTE, x) }
func (w whereHelperstring) GT(x string) qm.QueryMod    { return qmhelper.Where(w.field, qmhelper.GT, x) }
func (w whereHelperstring) GTE(x string) qm.QueryMod   { return qmhelper.Where(w.field, qmhelper.GTE, x) }
func (w whereHelperstring) LIKE(x string) qm.QueryMod  { return qm.Where(w.field+" LIKE ?", x) }
func (w whereHelperstring) NLIKE(x string) qm.QueryMod { return qm.Where(w.field+" NOT LIKE ?", x) }
func (w whereHelperstring) IN(slice []string) qm.QueryMod {
	values := make([]interface{}, 0, len(slice))
	for _, value := range slice {
		values = append(values, value)
	}
	return qm.WhereIn(fmt.Sprintf("%s IN ?", w.field), values...)
}
func (w whereHelperstring) NIN(slice []string) qm.QueryMod {
	values := make([]interface{}, 0, len(slice))
	for _, value := range slice {
		values = append(values, value)
	}
	return qm.WhereNotIn(fmt.Sprintf("%s NOT IN ?", w.field), values...)
}

// Generated where

type whereHelperint64 struct{ field string }

func (w whereHelperint64) EQ(x int64) qm.QueryMod  { return qmhelper.Where(w.field, qmhelper.EQ, x) }
func (w whereHelperint64) NEQ(x int64) qm.QueryMod { return qmhelper.Where(w.field, qmhelper.NEQ, x) }
func (w whereHelperint64) LT(x int64) qm.QueryMod  { return qmhelper.Where(w.field, qmhelper.LT, x) }
func (w whereHelperint64) LTE(x int64) qm.QueryMod { return qmhelper.Where(w.field, qmhelper.LTE, x) }
func (w whereHelperint64) GT(x int64) qm.QueryMod  { return qmhelper.Where(w.field, qmhelper.GT, x) }
func (w whereHelperint64) GTE(x int64) qm.QueryMod { return qmhelper.Where(w.field, qmhelper.GTE, x) }
func (w whereHelperint64) IN(slice []int64) qm.QueryMod {
	values := make([]interface{}, 0, len(slice))
	for _, value := range slice {
		values = append(values, value)
	}
	return qm.WhereIn(fmt.Sprintf("%s IN ?", w.field), values...)
}
func (w whereHelperint64) NIN(slice []int64) qm.QueryMod {
	values := make([]interface{}, 0, len(slice))
	for _, value := range slice {
		values = append(values, value)
	}
	return qm.WhereNotIn(fmt.Sprintf("%s NOT IN ?", w.field), values...)
}

type whereHelpertime_Time struct{ field string }

func (w whereHelpertime_Time) EQ(x time.Time) qm.QueryMod {
	return qmhelper.Where(w.field, qmhelper.EQ, x)
}
func (w whereHelpertime_Time) NEQ(x time.Time) qm.QueryMod {
	return qmhelper.Where(w.field, qmhelper.NEQ, x)
}
func (w whereHelpertime_Time) LT(x time.Time) qm.QueryMod {
	return qmhelper.Where(w.field, qmhelper.LT, x)
}
func (w whereHelpertime_Time) LTE(x time.Time) qm.QueryMod {
	return qmhelper.Where(w.field, qmhelper.LTE, x)
}
func (w whereHelpertime_Time) GT(x time.Time) qm.QueryMod {
	return qmhelper.Where(w.field, qmhelper.GT, x)
}
func (w whereHelpertime_Time) GTE(x time.Time) qm.QueryMod {
	return qmhelper.Where(w.field, qmhelper.GTE, x)
}

var HeaderWhere = struct {
	Record          whereHelperint64
	Lastknownrecord whereHelperint64
	Block           whereHelperint64
	Lastknownblock  whereHelperint64
	Deleted         whereHelperint64
	Typeflag        whereHelperint64
	Name            whereHelperstring
	Linkname        whereHelperstring
	Size            whereHelperint64
	Mode            whereHelperint64
	UID             whereHelperint64
	Gid             whereHelperint64
	Uname           whereHelperstring
	Gname           whereHelperstring
	Modtime         whereHelpertime_Time
	Accesstime      whereHelpertime_Time
	Changetime      whereHelpertime_Time
	Devmajor        whereHelperint64
	Devminor        whereHelperint64
	Paxrecords      whereHelperstring
	Format          whereHelperint64
}{
	Record:          whereHelperint64{field: "\"headers\".\"record\""},
	Lastknownrecord: whereHelperint64{field: "\"headers\".\"lastknownrecord\""},
	Block:           whereHelperint64{field: "\"headers\".\"block\""},
	Lastknownblock:  whereHelperint64{field: "\"headers\".\"lastknownblock\""},
	Deleted:         whereHelperint64{field: "\"headers\".\"deleted\""},
	Typeflag:        whereHelperint64{field: "\"headers\".\"typeflag\""},
	Name:            whereHelperstring{field: "\"headers\".\"name\""},
	Linkname:        whereHelperstring{field: "\"headers\".\"linkname\""},
	Size:            whereHelperint64{field: "\"headers\".\"size\""},
	Mode:            whereHelperint64{field: "\"headers\".\"mode\""},
	UID:             whereHelperint64{field: "\"headers\".\"uid\""},
	Gid:             whereHelperint64{field: "\"headers\".\"gid\""},
	Uname:           whereHelperstring{field: "\"headers\".\"uname\""},
	Gname:           whereHelperstring{field: "\"headers\".\"gname\""},
	Modtime:         whereHelpertime_Time{field: "\"headers\".\"modtime\""},
	Accesstime:      whereHelpertime_Time{field: "\"headers\".\"accesstime\""},
	Changetime:      whereHelpertime_Time{field: "\"headers\".\"changetime\""},
	Devmajor:        whereHelperint64{field: "\"headers\".\"devmajor\""},
	Devminor:        whereHelperint64{field: "\"headers\".\"devminor\""},
	Paxrecords:      whereHelperstring{field: "\"headers\".\"paxrecords\""},
	Format:          whereHelperint64{field: "\"headers\".\"format\""},
}

func (o *Header) Exists(ctx context.Context, exec boil.ContextExecutor) (bool, error) {
	return HeaderExists(ctx, exec, o.Name, o.Linkname)
}

func (o HeaderSlice) UpdateAll(ctx context.Context, exec boil.ContextExecutor, cols M) (int64, error) {
	var n int64
	for _, h := range o {
		k, err := Headers(qm.Where("name = ?", h.Name), qm.Where("linkname = ?", h.Linkname)).UpdateAll(ctx, exec, cols)
		if err != nil {
			return n, err
		}
		n += k
	}
	return n, nil
}

func (o HeaderSlice) DeleteAll(ctx context.Context, exec boil.ContextExecutor) (int64, error) {
	var n int64
	for _, h := range o {
		k, err := h.Delete(ctx, exec)
		if err != nil {
			return n, err
		}
		n += k
	}
	return n, nil
}

var HeaderRels = struct{}{}
