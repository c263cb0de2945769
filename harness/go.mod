module antverif

go 1.26

require (
	github.com/yields/ant v0.0.0
	github.com/gorilla/websocket v1.5.3
	golang.org/x/net v0.41.0
	github.com/golang/snappy v1.0.0
)

require (
	github.com/andybalholm/cascadia v1.3.3 // indirect
	github.com/hashicorp/errwrap v1.1.0 // indirect
	github.com/hashicorp/go-multierror v1.1.1 // indirect
	github.com/mafredri/cdp v0.35.0 // indirect
	github.com/segmentio/agecache v0.1.3 // indirect
	github.com/spaolacci/murmur3 v1.1.0 // indirect
	github.com/temoto/robotstxt v1.1.2 // indirect
	github.com/tidwall/match v1.1.1 // indirect
	github.com/willf/bitset v1.1.11 // indirect
	github.com/willf/bloom v2.0.3+incompatible // indirect
	golang.org/x/sync v0.15.0 // indirect
	golang.org/x/time v0.12.0 // indirect
)

replace github.com/yields/ant => /repo
