module github.com/mattn/go-runewidth

go 1.19
