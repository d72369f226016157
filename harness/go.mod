module verif/harness

go 1.21

require (
	github.com/warthog618/sms v0.0.0
	verif/simrt v0.0.0
)
