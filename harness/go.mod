module distclusverif

go 1.25

require (
	github.com/wearelumenai/distclus v0.0.0
	golang.org/x/exp v0.0.0-20200513190911-00229845015e
	gonum.org/v1/gonum v0.7.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/gonum/floats v0.0.0-20181209220543-c233463c7e82 // indirect
	github.com/gonum/internal v0.0.0-20181124074243-f884aa714029 // indirect
	golang.org/x/exp/errors v0.0.0-20200513190911-00229845015e // indirect
	golang.org/x/tools v0.0.0-20200526224456-8b020aee10d2 // indirect
)

replace github.com/wearelumenai/distclus => /repo
