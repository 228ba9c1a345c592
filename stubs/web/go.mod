module github.com/gocraft/web

go 1.23
