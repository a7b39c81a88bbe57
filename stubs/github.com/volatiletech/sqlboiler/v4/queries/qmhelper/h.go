// Package qmhelper models the typed comparison helpers.
package qmhelper

import (
	"fmt"

	"github.com/volatiletech/sqlboiler/v4/queries/qm"
)

type operator string

const (
	EQ  operator = "="
	NEQ operator = "!="
	LT  operator = "<"
	LTE operator = "<="
	GT  operator = ">"
	GTE operator = ">="
)

func Where(field string, op operator, value interface{}) qm.QueryMod {
	return qm.Where(fmt.Sprintf("%s %s ?", field, string(op)), value)
}

func WhereIsNull(field string) qm.QueryMod    { return qm.Where(field + " is null") }
func WhereIsNotNull(field string) qm.QueryMod { return qm.Where(field + " is not null") }
