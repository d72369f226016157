module github.com/warthog618/sms

go 1.21
