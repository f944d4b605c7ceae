module github.com/ikawaha/kagome.ipadic

go 1.19
