module vharness

go 1.25

require (
	github.com/crunchypi/go-narb v0.0.0-20210728113441-c451128919c7
	trypo v0.0.0
)

replace trypo => /repo
