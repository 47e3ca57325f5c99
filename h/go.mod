module verif.local/h

go 1.24

require github.com/warthog618/sms v0.0.0

replace github.com/warthog618/sms => /repo
