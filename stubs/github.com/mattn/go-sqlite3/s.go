package sqlite3
