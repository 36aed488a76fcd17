package main

// rules says what makes a run count as non-trivial for a property.
var rules = map[string]string{
	"C01": "the run had at least two tasks",
	"C02": "the run had at least two tasks",
	"C03": "at least two tasks executed at the same time",
	"C04": "every run (it executes a runbook to its end)",
	"C05": "the run had at least two tasks",
	"C06": "a task failed in a run of several tasks",
	"C07": "a database session was established",
	"C08": "the runbook could not be loaded, its dependency graph was invalid or a target could not be started",
	"C09": "at least two tasks executed at the same time",
	"C10": "a task's message was logged",
	"C11": "a shell command was started",
	"C12": "a shell task wrote output that was checked, or a task failed",
	"C13": "demo targets printed at least two lines",
	"C15": "more than one connection attempt was made",
	"C16": "a connection was attempted under an sslmode (or a password) that constrains TLS",
	"C18": "the answer to a query of an inspection broke off",
	"C19": "an inspection succeeded and described at least one table",
	"C20": "the same database was inspected in several orders and at least two sorted items were listed",
	"C21": "a connection was attempted",
	"C17": "SQL reached the server",
	"C14": "at least one task completed in a graph of more than two tasks, or the graph was invalid",
	"C25": "a debug log was given and a message was logged",
	"C26": "every run (it starts a target and closes its queue)",
	"C27": "more sleep tasks were submitted than the target may execute at once",
	"C28": "at least two echo, rev or rot13 steps executed",
	"C22": "a fault struck the command's destination",
	"C23": "the command failed before it had anything to write",
	"C29": "a request was answered, and another failed or found nothing or another session was open",
	"C31": "a command was running on after it had written output",
	"C30": "a password was configured and a connection was attempted (runbook: several tasks)",
	"C24": "a report of more than one task was compared (list, dot), or a runbook was evaluated",
}
