module comfoverif

go 1.27

require (
	github.com/ti-mo/comfo v0.0.0
	github.com/twitchtv/twirp v8.1.3+incompatible
	google.golang.org/protobuf v1.34.1
	pgregory.net/rapid v1.3.0
)

replace github.com/ti-mo/comfo => /repo
