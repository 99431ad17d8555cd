module verif/harness

go 1.25.0

require (
	github.com/youthlin/t v0.0.0
	golang.org/x/text v0.23.0
)

require (
	github.com/Xuanwo/go-locale v1.1.0 // indirect
	github.com/antlr4-go/antlr/v4 v4.13.0 // indirect
	golang.org/x/exp v0.0.0-20230515195305-f3d0a9c9a5cc // indirect
	golang.org/x/sys v0.31.0 // indirect
)

replace github.com/youthlin/t => /repo
