package migrate

import "database/sql"

type MigrationDirection int

const (
	Up MigrationDirection = iota
	Down
)

type MigrationSource interface{}

type AssetMigrationSource struct {
	Asset    func(path string) ([]byte, error)
	AssetDir func(path string) ([]string, error)
	Dir      string
}

func Exec(db *sql.DB, dialect string, m MigrationSource, dir MigrationDirection) (int, error) {
	return 1, nil
}
