module verif

go 1.25

require (
	github.com/Breeze0806/go v0.0.0
	github.com/Breeze0806/gobinlog v0.0.0
	github.com/Breeze0806/mysql v1.4.2
)

replace (
	github.com/Breeze0806/go => ../stub/golog
	github.com/Breeze0806/gobinlog => ../build/src/gobinlog
	github.com/Breeze0806/mysql => ../build/src/mysql
)
