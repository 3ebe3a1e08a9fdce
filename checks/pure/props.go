package main

import "verif/drive"

func init() {
	const enumerated = "the inputs (values, lengths, programs, fragmentations, damage positions, trees) are enumerated completely within the bounds that the scenario names state, each run on the real code and compared with an independent oracle; concurrent scenarios run every schedule up to the preemption bound; a case is distinct if its inputs hash differently"
	p := func(id, level string, rule string, as ...string) {
		drive.Props[id] = drive.Prop{Level: level, Rule: rule + "; " + enumerated, Assumptions: as}
	}
	const e, f = "exploration", "fault_enumeration"
	p("C27", e, "a case is a pair of lists; non-trivial: all, also with repeated ids and equal lists")
	p("C28", e, "a case is one call of Encrypt or Decrypt; for Decrypt the ciphertext is right, or changed in one bit or byte, cut, extended, or of another key", "damage beyond the enumerated kinds is rejected by AES-GCM itself, which is trusted")
	p("C29", e, "a case is a text", "crypto/md5 of the standard library and the RFC 1321 test vectors are the oracle")
	p("C30", e, "a case is a stored path that is compared with what was added, or a failing save", "real files in a scratch directory; a full device is produced by /dev/full and RLIMIT_FSIZE")
	p("C31", e, "a case is a stored or unknown path that is opened, read, listed and walked, or a sequence of reads")
	p("C32", f, "a case is a damaged archive (cut off at a byte, a bit or block changed, bytes added or taken away) or a wrong key", "changes of an archive that is not encrypted are outside of the property, except that it is cut off")
	p("C33", e, "a case is a program of routes and the step at which it fails")
	p("C34", e, "a case is a value and a shift, or a pair of values", "math/big is the oracle for shifts")
	p("C35", e, "a case is a value and a width, or a slice and a size")
	p("C36", f, "a case is a way to fragment, delay, end or break a stream of bytes", "the connection is a stand-in that follows the contract of net.Conn; time is virtual")
	p("C37", f, "a case is data that is compressed, or a stream that is damaged", "compress/gzip of the standard library is the oracle for the format")
}
