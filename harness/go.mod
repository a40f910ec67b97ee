module verifharness

go 1.26.0

require (
	github.com/QuangTung97/go-memcache v0.0.0
	github.com/anishathalye/porcupine v1.3.1
)

replace github.com/QuangTung97/go-memcache => /repo
