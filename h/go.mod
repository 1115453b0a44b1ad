module verif.local/h

go 1.26.0

require github.com/liyue201/gostl v0.0.0

replace github.com/liyue201/gostl => /repo
