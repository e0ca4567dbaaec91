module verifharness

go 1.23

require github.com/peterbourgon/trc v0.0.0

require (
	github.com/bernerdschaefer/eventsource v0.0.0-20130606115634-220e99a79763
	github.com/oklog/ulid/v2 v2.1.0 // indirect
)

replace github.com/peterbourgon/trc => /repo
