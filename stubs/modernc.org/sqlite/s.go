package sqlite
