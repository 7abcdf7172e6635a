module vharness

go 1.25

require (
	github.com/gorilla/websocket v1.4.1
	github.com/voltbras/go-ocpp v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/google/uuid v1.1.0 // indirect

replace github.com/voltbras/go-ocpp => /repo
