module github.com/mozillazg/go-pinyin

go 1.19
