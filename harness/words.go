package main

// words programs and people put into syslog messages: values that code might
// be tempted to treat in a special way
var words = []string{"localhost", "localhost.localdomain", "host.local", "www.example.org", "HOST", "0.0.0.0", "127.0.0.1", "10.1.2.3", "::1", "fe80::1%eth0", "2001:db8::42", "*", "?",
	"unknown", "none", "null", "nil", "NULL", "None", "NIL", "NaN", "true", "false", "0", "00", "1", "-1", "1.5", "1e9", "0x1f", "65535", "4294967296", "99999999999999999999",
	"kernel", "kern", "syslogd", "syslog", "rsyslogd", "su", "sudo", "sshd", "CRON", "cron", "/usr/sbin/cron", "systemd", "systemd-logind", "evntslog", "postfix/smtpd", "%ASA-6-302013", "%%01", "%s", "%d%n", "$HOST",
	"MARK", "--", "---", "-x", "x-", "TCPIN", "ID47", "id47", "last", "message", "repeated", "exampleSDID@32473", "examplePriority@32473", "timeQuality", "tzKnown", "isSynced", "origin", "meta", "sequenceId",
	"sysUpTime", "language", "ip", "iut", "eventSource", "eventID", "utf-8", "BOM", "<1>", "<34>1", "1", "999", "Z", "T", "+00:00", "Jan", "2003-10-11T22:14:15.003Z", "a=b", "a:", "a,b;c", "x@y", "x@1"}

// texts for the message part
var texts = []string{"last message repeated 3 times", "-- MARK --", "'su root' failed for lonvick on /dev/pts/8", "%% It's time to make the do-nuts.", "An application event log entry...", "{\"a\": [1, \"x\"]}",
	"key=value k2=\"v 2\"", "<34>1 2003-10-11T22:14:15.003Z h a p m - x", "<13>Feb  5 17:32:18 10.0.0.99 Use the BFG!", "#0 main() at a.c:1", "%ASA-6-302013: Built outbound", "Oct 11 22:14:15 h su: x", "null", "-", "- -", "[x]", "[x y=\"z\"]", "1", " 1",
	"connection from 127.0.0.1:80 (localhost)", "100% done", "C:\\dir\\file", "a|b|c", "\"quoted\"", "tail ", "  lead"}
