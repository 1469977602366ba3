module verif/mc

go 1.23

require github.com/zbdba/db-recovery v0.0.0

require github.com/golang/glog v0.0.0-20160126235308-23def4e6c14b // indirect

replace github.com/zbdba/db-recovery => /repo
